SPECIFICATION Spec
CONSTANTS
  Part = "scalars"
  MaxBit = 256
  Offsets = {1, 2, 3}
  Step = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
