SPECIFICATION Spec
CONSTANTS
  Owners = {1,2,3}
  Sums <- Edges
  Deltas <- None
  Firsts <- Edges
  Forms = {}
  Raws <- Empty
  Widths = {64}
  Thefts = {}
  Coins0 = 3
  MaxPours = 3
  Heights = {1,2,3}
  Branching = {2,3,4}
  Mints = TRUE
  Receivers = {1,2,3}
INVARIANTS Conserved InRange Owned Once Emit
CHECK_DEADLOCK FALSE
