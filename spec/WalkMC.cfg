SPECIFICATION Spec
INVARIANTS Once Complete Proved Shaped
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {0, 8}
  Third = {8}
  MaxKeys = 3
  Counts = {0, 1, 2, 3, 16, 17}
  MaxAbsent = 1
