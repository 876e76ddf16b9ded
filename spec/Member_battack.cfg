SPECIFICATION Spec
CONSTANTS
  Ls = {2}
  Ms = {2,3}
  Apis = {"batch"}
  Sizes = {1,2,3,5}
  Wants = {0,3}
  Patterns = {"distinct","craft"}
  Strategies = {"child","siblings","stop","deeper","cancel"}
  Alts = {}
  Others = {}
  AllIndices = FALSE
  MaxHeight = 4
INVARIANTS Sound Complete Emit
CHECK_DEADLOCK FALSE
