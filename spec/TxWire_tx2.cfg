SPECIFICATION Spec
CONSTANTS
  MaxMut = 2
  Kinds = {"tx"}
  Signers = {"owners","thief","zero","crossed"}
  Contexts = {}
  Splices = TRUE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
