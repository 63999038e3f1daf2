SPECIFICATION Spec
CONSTANTS
  Positions = 3
  Length = 3
  MaxMax = 3
INVARIANTS Bounded AsComputed Best Emit
PROPERTY Left
CHECK_DEADLOCK FALSE
