SPECIFICATION Spec
INVARIANTS Undone Untouched Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 5
