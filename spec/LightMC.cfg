SPECIFICATION Spec
INVARIANTS FinalTrue CommitteesTrue Forward Rotation Threshold NotAhead Heard Asked
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 2
  N = 3
  Periods = 3
  Bits = {0, 1, 2, 3}
