SPECIFICATION Spec
INVARIANTS Taken Reads Same Indexed
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPuts = 4
  MaxDue = 3
  N = 4
  F = 2
  Sizes = {1, 5, 9}
