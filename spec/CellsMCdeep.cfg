SPECIFICATION Spec
INVARIANTS Design Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3}
  Len0 = 3
  MaxSteps = 8
