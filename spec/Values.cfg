SPECIFICATION Spec
VIEW View
INVARIANT Judged
INVARIANT Stable
CHECK_DEADLOCK FALSE
