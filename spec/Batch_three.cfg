SPECIFICATION Spec
CONSTANTS
  Shapes = {2,8}
  Kinds = {"scalar"}
  Dirs = {"X","B","Gl","H0","bad"}
  MaxCoef = 2
  MaxMembers = 3
  MinEmit = 3
  Field = 5
INVARIANTS WeightsDecide Emit
CHECK_DEADLOCK FALSE
