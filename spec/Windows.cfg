SPECIFICATION Spec
CONSTANTS
  Part = "tables"
  MaxBit = 0
  Offsets = {0}
  Step = 16
INVARIANTS Wide SumIsScalar Unchecked
CHECK_DEADLOCK FALSE
