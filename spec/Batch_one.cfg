SPECIFICATION Spec
CONSTANTS
  Shapes = {1,2,4,8,16}
  Kinds = {"scalar","vec","mixed","phase2"}
  Dirs = {"X","B","Bb","G0","Gl","H0","Hl","bad"}
  MaxCoef = 2
  MaxMembers = 1
  MinEmit = 1
  Field = 5
INVARIANTS WeightsDecide Emit
CHECK_DEADLOCK FALSE
