SPECIFICATION MSpec
INVARIANT Examine
CHECK_DEADLOCK FALSE
