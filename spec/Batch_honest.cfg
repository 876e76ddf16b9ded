SPECIFICATION Spec
CONSTANTS
  Shapes = {1,2,4,8,16}
  Kinds = {"scalar","vec","phase2"}
  Dirs = {}
  MaxCoef = 0
  MaxMembers = 9
  MinEmit = 2
  Field = 5
INVARIANTS WeightsDecide Emit
CHECK_DEADLOCK FALSE
