SPECIFICATION Spec
CONSTANTS
  MaxMut = 2
  Kinds = {"path","even","odd","pour","tx"}
  Signers = {}
  Contexts = {}
  Splices = TRUE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
