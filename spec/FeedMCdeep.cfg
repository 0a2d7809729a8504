SPECIFICATION Spec
INVARIANTS Waiting Known Served
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSlots = 10
  Roots = 2
