SPECIFICATION SSpec
INVARIANT Export
CHECK_DEADLOCK FALSE
