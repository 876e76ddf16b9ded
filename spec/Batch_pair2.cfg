SPECIFICATION Spec
CONSTANTS
  Shapes = {1,4}
  Kinds = {"vec"}
  Dirs = {"X","B","Bb","G0","Gl","H0","Hl","bad"}
  MaxCoef = 3
  MaxMembers = 2
  MinEmit = 2
  Field = 7
INVARIANTS WeightsDecide Emit
CHECK_DEADLOCK FALSE
