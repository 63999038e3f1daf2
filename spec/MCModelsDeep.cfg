SPECIFICATION Spec
CONSTANTS
  Slots = 2
  Names = {"m", "n"}
  Depth = 5
INVARIANTS Own Retried Shared Emit
CHECK_DEADLOCK FALSE
