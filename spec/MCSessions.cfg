SPECIFICATION Spec
INVARIANTS Isolated Untouched Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 7
CONSTANT Live = {1, 2}
VIEW View
