SPECIFICATION Spec
CONSTANTS
  Owners = {1,2}
  Sums <- Few
  Deltas <- Near
  Firsts <- Few
  Forms = {"sk","key","keyonly","neg","shift","value","place","rand","tag"}
  Raws <- Empty
  Widths = {64}
  Thefts = {"retag","revalue"}
  Coins0 = 2
  MaxPours = 1
  Heights = {1}
  Branching = {2}
  Mints = FALSE
  Receivers = {1}
INVARIANTS Conserved InRange Owned Once Emit
CHECK_DEADLOCK FALSE
