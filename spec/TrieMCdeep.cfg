SPECIFICATION Spec
INVARIANTS Meaning Unique Account
CHECK_DEADLOCK FALSE
CONSTANTS
  Nib = {0, 1}
  MaxKey = 1
  MaxPath = 2
  MaxNodes = 3
