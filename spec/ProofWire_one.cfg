SPECIFICATION Spec
CONSTANTS
  MaxMut = 1
  Compound = TRUE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
