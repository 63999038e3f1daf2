SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Coherent Emit
CHECK_DEADLOCK FALSE
