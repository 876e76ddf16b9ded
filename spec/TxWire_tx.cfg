SPECIFICATION Spec
CONSTANTS
  MaxMut = 1
  Kinds = {"tx"}
  Signers = {"owners","thief","zero","crossed"}
  Contexts = {"domain","otherleaf","extended","raised","salt","generator","rebuilt"}
  Splices = TRUE
INVARIANTS OriginalParses Injective Emit
CHECK_DEADLOCK FALSE
