SPECIFICATION CSpec
INVARIANT Examine
CHECK_DEADLOCK FALSE
