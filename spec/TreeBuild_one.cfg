SPECIFICATION Spec
CONSTANTS
  Ls = {2,3,4}
  Ms = {1,2}
  Sizes = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27}
  Wants = {0,2,3,6}
  Patterns = {"distinct","same","alternate"}
  MaxTrees = 1
  MinEmit = 1
INVARIANTS RightShape RootBinds Emit
CHECK_DEADLOCK FALSE
