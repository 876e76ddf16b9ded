SPECIFICATION Spec
CONSTANTS
  Ls = {2,3}
  Ms = {1}
  Apis = {"single"}
  Sizes = {1,2,3,4,5,6}
  Wants = {0,3,4}
  Patterns = {"distinct","craft"}
  Strategies = {"child","siblings","stop","deeper","cancel"}
  Alts = {}
  Others = {}
  AllIndices = FALSE
  MaxHeight = 4
INVARIANTS Sound Complete Emit
CHECK_DEADLOCK FALSE
