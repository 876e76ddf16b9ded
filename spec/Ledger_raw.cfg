SPECIFICATION Spec
CONSTANTS
  Owners = {1}
  Sums <- Few
  Deltas <- None
  Firsts <- Few
  Forms = {}
  Raws <- Big
  Widths = {0,63,64,65,66,128,255,1000}
  Thefts = {}
  Coins0 = 2
  MaxPours = 1
  Heights = {1}
  Branching = {2}
  Mints = FALSE
  Receivers = {1}
INVARIANTS Conserved InRange Owned Once Emit
CHECK_DEADLOCK FALSE
