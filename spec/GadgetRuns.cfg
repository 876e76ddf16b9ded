SPECIFICATION Spec
CONSTANTS
  Ns = {1,2,3,4,5,7,8,15,16,17,31,32,33,48,62,63,64}
  Sizes = {1,2,3,4,7,16,33}
  Bits = {2,3,4,5,6,7,8,9,14,15,16,17,18,30,31,32,33,34,47,48,49,61,62,63,64,65}
INVARIANT Emit
CHECK_DEADLOCK FALSE
