SPECIFICATION Spec
CONSTANTS
  Owners = {1,2,3}
  Sums <- Few
  Deltas <- None
  Firsts <- Small
  Forms = {"sk","key","keyonly","neg","shift","value","place","rand","tag"}
  Raws <- Empty
  Widths = {64}
  Thefts = {}
  Coins0 = 3
  MaxPours = 2
  Heights = {1,2,3}
  Branching = {2,3}
  Mints = FALSE
  Receivers = {1}
INVARIANTS Conserved InRange Owned Once Emit
CHECK_DEADLOCK FALSE
