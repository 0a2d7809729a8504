SPECIFICATION Spec
INVARIANTS Faithful Once Sound Exact
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCalls = 3
  Kinds = {"content", "offer", "trace", "one"}
  Few = TRUE
