SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxPrompts = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
