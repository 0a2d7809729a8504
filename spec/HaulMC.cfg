SPECIFICATION Spec
INVARIANTS Bounded Sound Ordered Lively
CHECK_DEADLOCK FALSE
CONSTANTS
  Blocks = 2
  Limit = 2
  MaxTime = 4000
