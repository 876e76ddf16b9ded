SPECIFICATION Spec
CONSTANTS
  Shapes = {1,2,4,16}
  Kinds = {"scalar","mixed"}
  Dirs = {"X","B","Bb","G0","Gl","H0","Hl","bad"}
  MaxCoef = 1
  MaxMembers = 2
  MinEmit = 2
  Field = 5
INVARIANTS WeightsDecide Emit
CHECK_DEADLOCK FALSE
