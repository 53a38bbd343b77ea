SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Priority NoFallThrough Export
