SPECIFICATION Spec
CONSTANTS
  Owners = {1}
  Sums <- Few
  Deltas <- None
  Firsts <- Few
  Forms = {}
  Raws <- Empty
  Widths = {64}
  Thefts = {}
  Coins0 = 3
  MaxPours = 1
  Heights = {0,1,2}
  Branching = {8,256}
  Mints = FALSE
  Receivers = {1}
INVARIANTS Conserved InRange Owned Once Emit
CHECK_DEADLOCK FALSE
