SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSteps = 34
