SPECIFICATION SSpec
INVARIANTS Confluence OnceEach Export
CHECK_DEADLOCK FALSE
