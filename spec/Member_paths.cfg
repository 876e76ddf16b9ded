SPECIFICATION Spec
CONSTANTS
  Ls = {2,3,4}
  Ms = {1}
  Apis = {"single"}
  Sizes = {1,2,3,4,5,7,8,9,10,13,16,17}
  Wants = {0,1,2,3,5}
  Patterns = {"distinct","same"}
  Strategies = {}
  Alts = {}
  Others = {}
  AllIndices = TRUE
  MaxHeight = 5
INVARIANTS Sound Complete Emit
CHECK_DEADLOCK FALSE
