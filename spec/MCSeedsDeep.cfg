SPECIFICATION Spec
INVARIANTS Reproducible Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 4
