SPECIFICATION Spec
CONSTANTS
  MaxMut = 3
  Compound = TRUE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
