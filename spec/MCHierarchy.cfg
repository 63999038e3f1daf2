SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "a/b", "a/a", "a/b/a", "b/a/b", "ab", "a/ab"}
  Size = 4
INVARIANTS Agrees Report
CHECK_DEADLOCK FALSE
