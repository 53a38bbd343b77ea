SPECIFICATION Spec
INVARIANTS NoMemoNoShare NeverFailed OneSuccess Invalid
CHECK_DEADLOCK FALSE
