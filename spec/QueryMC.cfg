SPECIFICATION Spec
INVARIANTS Holds Terminates Once
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 2, 3}
  Starts <- MCStarts
  Pars = {1, 2}
  Nums = {2}
  Ttl = 2
  MaxNow = 3
  Kinds = {"node", "content"}
  MaxNames = 2
  Record = FALSE
  Depth = 0
