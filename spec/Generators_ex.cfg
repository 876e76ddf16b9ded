SPECIFICATION Spec
CONSTANTS
  Caps = {0,1,2,3,5,8,33,64}
  Parties = {1,2,4}
  MaxOps = 3
  MinEmit = 1
  Queries = FALSE
INVARIANT Emit
PROPERTY NeverShrinks
CHECK_DEADLOCK FALSE
