SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Positions = {0, 1, 4095, 4096, 8191}
  Sums = 40
