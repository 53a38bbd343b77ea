SPECIFICATION Spec
INVARIANTS OneEach ClashKept NoIgnored
CHECK_DEADLOCK FALSE
