SPECIFICATION Spec
INVARIANTS Faithful Ordered
CHECK_DEADLOCK FALSE
