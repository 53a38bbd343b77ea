SPECIFICATION Spec
CONSTANTS Depth = 7
 Talk = FALSE
 SugDepth = 3
INVARIANTS Good HeadIsCommit
VIEW View
CHECK_DEADLOCK FALSE
