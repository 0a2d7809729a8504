SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depths = {1, 2, 3, 4, 32}
  Values = {0, 1, 2, 3}
  MaxStart = 5
  Record = TRUE
  Depth = 16
