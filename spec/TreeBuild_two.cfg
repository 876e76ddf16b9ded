SPECIFICATION Spec
CONSTANTS
  Ls = {2,3,4}
  Ms = {1}
  Sizes = {1,2,3,4,5,8,9}
  Wants = {0,3}
  Patterns = {"distinct","same","alternate"}
  MaxTrees = 2
  MinEmit = 2
INVARIANTS RightShape RootBinds Emit
CHECK_DEADLOCK FALSE
