SPECIFICATION Spec
INVARIANTS FinalTrue CommitteesTrue Forward Rotation Threshold NotAhead Heard Asked
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P = 3
  N = 3
  Periods = 4
  Bits = {0, 1, 2, 3}
