SPECIFICATION Spec
INVARIANTS OnlySources LastWins
CHECK_DEADLOCK FALSE
