SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Kept Original Emit
CHECK_DEADLOCK FALSE
