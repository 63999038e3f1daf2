SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxPrompts = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
