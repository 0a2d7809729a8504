SPECIFICATION Spec
INVARIANTS Holds OnePlace
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2
  Draw = FALSE
