SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Full = TRUE
