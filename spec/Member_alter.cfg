SPECIFICATION Spec
CONSTANTS
  Ls = {2,3}
  Ms = {1}
  Apis = {"single"}
  Sizes = {1,3,5,9}
  Wants = {0,2,4}
  Patterns = {"distinct"}
  Strategies = {}
  Alts = {"rerun","otherrun","random","identity","negate","shift","move","swap","drop","dup","push","mix","mixother"}
  Others = {"leaf","other","grow","raise","raise2","turn"}
  AllIndices = FALSE
  MaxHeight = 4
INVARIANTS Sound Complete Emit
CHECK_DEADLOCK FALSE
