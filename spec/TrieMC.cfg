SPECIFICATION Spec
INVARIANTS Meaning Unique Account
CHECK_DEADLOCK FALSE
CONSTANTS
  Nib = {0, 1}
  MaxKey = 2
  MaxPath = 3
  MaxNodes = 2
