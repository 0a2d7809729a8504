SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Lens = {0, 1, 2, 127, 128, 16384}
  MaxItems = 3
  Alphabet = {0, 1, 2, 3, 127, 128, 255}
  MaxRaw = 4
  MaxCodes = 3
