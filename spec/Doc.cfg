SPECIFICATION Spec
INVARIANTS NothingLost NothingHidden
CHECK_DEADLOCK FALSE
