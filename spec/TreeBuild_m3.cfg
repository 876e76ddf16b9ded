SPECIFICATION Spec
CONSTANTS
  Ls = {2,3}
  Ms = {3}
  Sizes = {1,2,3,4,5,8,9,10}
  Wants = {0,1,4}
  Patterns = {"distinct","same","alternate"}
  MaxTrees = 2
  MinEmit = 1
INVARIANTS RightShape RootBinds Emit
CHECK_DEADLOCK FALSE
