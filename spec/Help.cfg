SPECIFICATION Spec
INVARIANT OnlyItems
CHECK_DEADLOCK FALSE
