SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Inv Export
