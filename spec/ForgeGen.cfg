SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Positions = {0, 1, 2, 31, 1024, 4095, 4096, 5461, 8190, 8191}
