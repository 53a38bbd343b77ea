SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AtMostOnce InOrder OnlyWhenNeeded NeverWhenRefused AllAsked FailureIsLast Export
