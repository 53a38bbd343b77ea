SPECIFICATION Spec
INVARIANTS Once Nested Reported FirstError AfterMeansSuccess Balanced Silent
CHECK_DEADLOCK FALSE
