SPECIFICATION Spec
CONSTANTS
  Ls = {2,3,4,8}
  Ms = {1}
  Sizes = {63,64,65,80,81,82,255,256,257}
  Wants = {0,4,9}
  Patterns = {"distinct"}
  MaxTrees = 1
  MinEmit = 1
INVARIANTS RightShape RootBinds Emit
CHECK_DEADLOCK FALSE
