SPECIFICATION Spec
INVARIANTS Formed TextKept PlainText RoundTrip Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 3
