SPECIFICATION Spec
INVARIANTS Bounded Sound Ordered Lively
CHECK_DEADLOCK FALSE
CONSTANTS
  Blocks = 3
  Limit = 3
  MaxTime = 5000
