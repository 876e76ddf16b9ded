SPECIFICATION Spec
INVARIANT Decide Honest
CHECK_DEADLOCK FALSE
