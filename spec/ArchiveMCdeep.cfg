SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes Agree Whole
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEntries = 3
  MaxValue = 3
  Bytes = {0, 1, 2, 8, 9, 10, 11, 16, 20, 255}
