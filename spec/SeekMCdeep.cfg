SPECIFICATION Spec
INVARIANTS Keeps Waits InFlight Tidy
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 2, 3, 4, 5}
  First = {1, 2, 4}
  Odd = 3
  Alpha = 2
  Want = 2
  MaxLooks = 1
  Kinds = {"trace", "nodes"}
