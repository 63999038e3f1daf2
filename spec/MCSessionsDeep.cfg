SPECIFICATION Spec
INVARIANTS Isolated Untouched Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 8
CONSTANT Live = {1, 2, 3}
VIEW View
