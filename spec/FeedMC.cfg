SPECIFICATION Spec
INVARIANTS Waiting Known Served
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSlots = 7
  Roots = 2
