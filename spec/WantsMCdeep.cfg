SPECIFICATION Spec
INVARIANTS Design Fits
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  MaxCap = 3
  MaxSteps = 8
