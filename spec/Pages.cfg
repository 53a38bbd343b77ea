SPECIFICATION Spec2
INVARIANT Once
CHECK_DEADLOCK FALSE
