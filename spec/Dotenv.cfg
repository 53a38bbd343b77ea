SPECIFICATION Spec
INVARIANTS Literal OneHook GoodNames WithinLine
CHECK_DEADLOCK FALSE
