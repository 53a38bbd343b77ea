SPECIFICATION Spec
CONSTANTS Depth = 14
 Talk = TRUE
 SugDepth = 3
INVARIANTS Good HeadIsCommit
CHECK_DEADLOCK FALSE
