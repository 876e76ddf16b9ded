SPECIFICATION Spec
INVARIANTS StagesGrow Emit
CHECK_DEADLOCK FALSE
