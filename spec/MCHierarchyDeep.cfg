SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "a/b", "a/a", "a/b/a", "b/a/b", "ab", "a/ab", "b/a", "b/b/b"}
  Size = 5
INVARIANTS Agrees Report
CHECK_DEADLOCK FALSE
