SPECIFICATION Spec
INVARIANTS Holds Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 13
  Draw = TRUE
