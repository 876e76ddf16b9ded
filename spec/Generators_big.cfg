SPECIFICATION Spec
CONSTANTS
  Caps = {0,1,63,100,255,256,257,1000}
  Parties = {1,2}
  MaxOps = 5
  MinEmit = 3
  Queries = TRUE
INVARIANT Emit
PROPERTY NeverShrinks
CHECK_DEADLOCK FALSE
