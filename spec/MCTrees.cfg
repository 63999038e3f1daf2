SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Coherent Emit
CHECK_DEADLOCK FALSE
