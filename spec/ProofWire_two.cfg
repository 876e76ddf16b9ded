SPECIFICATION Spec
CONSTANTS
  MaxMut = 2
  Compound = TRUE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
