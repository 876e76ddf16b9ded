SPECIFICATION Spec
CONSTANTS
  Ls = {2,3}
  Ms = {1,2}
  Apis = {"batch"}
  Sizes = {1,2,3,4,5}
  Wants = {0,3}
  Patterns = {"distinct"}
  Strategies = {}
  Alts = {}
  Others = {}
  AllIndices = TRUE
  MaxHeight = 3
INVARIANTS Sound Complete Emit
CHECK_DEADLOCK FALSE
