SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Pers = {1, 2, 3, 4, 5, 6, 7, 8}
  Poss = {0, 1, 31, 32, 4095, 8191}
  Lens = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxSteps = 24
