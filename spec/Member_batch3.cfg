SPECIFICATION Spec
CONSTANTS
  Ls = {2}
  Ms = {3,4}
  Apis = {"batch"}
  Sizes = {1,3,5}
  Wants = {0,4}
  Patterns = {"distinct"}
  Strategies = {}
  Alts = {}
  Others = {}
  AllIndices = FALSE
  MaxHeight = 4
INVARIANTS Sound Complete Emit
CHECK_DEADLOCK FALSE
