SPECIFICATION Spec
CONSTANTS
  Positions = 3
  Length = 4
  MaxMax = 4
INVARIANTS Bounded AsComputed Best Emit
PROPERTY Left
CHECK_DEADLOCK FALSE
