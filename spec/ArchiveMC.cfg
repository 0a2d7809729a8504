SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes Agree Whole
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEntries = 2
  MaxValue = 2
  Bytes = {0, 1, 2, 8, 10, 255}
