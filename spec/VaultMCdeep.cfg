SPECIFICATION Spec
INVARIANTS Taken Reads Same Indexed
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPuts = 6
  MaxDue = 3
  N = 6
  F = 2
  Sizes = {1, 5, 9}
