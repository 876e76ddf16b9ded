SPECIFICATION Spec
CONSTANTS
  Owners = {1}
  Sums <- Edges
  Deltas <- Off
  Firsts <- Edges
  Forms = {}
  Raws <- Empty
  Widths = {64}
  Thefts = {}
  Coins0 = 2
  MaxPours = 1
  Heights = {1}
  Branching = {2}
  Mints = FALSE
  Receivers = {1}
INVARIANTS Conserved InRange Owned Once Emit
CHECK_DEADLOCK FALSE
