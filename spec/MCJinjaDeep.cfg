SPECIFICATION Spec
INVARIANTS Right Bounded Emit
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 3
CONSTANT Pairs = TRUE
