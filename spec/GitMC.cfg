SPECIFICATION Spec
CONSTANTS Depth = 5
 Talk = FALSE
 SugDepth = 3
INVARIANTS Good HeadIsCommit
VIEW View
CHECK_DEADLOCK FALSE
