SPECIFICATION Spec
INVARIANTS Right Bounded Emit
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 2
CONSTANT Pairs = FALSE
