SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FinalValues Deferred InvalidSourceFails Total Export
