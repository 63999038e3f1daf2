SPECIFICATION Spec
INVARIANT Coherent
CHECK_DEADLOCK FALSE
