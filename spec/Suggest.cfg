SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
