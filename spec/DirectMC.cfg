SPECIFICATION Spec
INVARIANTS Faithful Once Sound Exact
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCalls = 2
  Kinds = {"ping", "nodes", "content", "offer", "trace", "one"}
  Few = FALSE
