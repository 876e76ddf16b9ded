SPECIFICATION Spec
CONSTANTS
  MaxMut = 1
  Kinds = {"path","even","odd","pour","tx"}
  Signers = {}
  Contexts = {}
  Splices = FALSE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
