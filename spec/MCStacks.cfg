SPECIFICATION Spec
CONSTANTS
  Height = 3
  Batches = 2
  Per = 3
INVARIANTS Counted Report
CHECK_DEADLOCK FALSE
