SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Kept Original Emit
CHECK_DEADLOCK FALSE
