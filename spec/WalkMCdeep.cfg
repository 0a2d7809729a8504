SPECIFICATION Spec
INVARIANTS Once Complete Proved Shaped
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {0, 8}
  Third = {0, 8}
  MaxKeys = 3
  Counts = {0, 1, 2, 3, 5, 16, 17, 255, 256, 3000}
  MaxAbsent = 1
