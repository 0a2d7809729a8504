SPECIFICATION Spec
INVARIANTS Design Fits
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3, 4}
  MaxCap = 3
  MaxSteps = 5
