SPECIFICATION Spec
INVARIANT Isolated
CHECK_DEADLOCK FALSE
