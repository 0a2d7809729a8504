SPECIFICATION Spec
INVARIANTS OneKey Sound Stricter
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 2
  N = 3
  Limit = 5
  Periods = 3
