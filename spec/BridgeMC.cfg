SPECIFICATION Spec
INVARIANTS Quiet Exact Paired Proven
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSteps = 4
  Skew = TRUE
