SPECIFICATION Spec
INVARIANTS Design Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2}
  Len0 = 2
  MaxSteps = 6
