SPECIFICATION Spec
CONSTANTS
  Q = 43
INVARIANTS Rare Emit
CHECK_DEADLOCK FALSE
