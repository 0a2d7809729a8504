SPECIFICATION Spec
INVARIANTS Holds Terminates Once
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 2, 3, 4}
  Starts <- DeepStarts
  Pars = {1, 2}
  Nums = {1, 3}
  Ttl = 2
  MaxNow = 3
  Kinds = {"node", "content"}
  MaxNames = 2
  Record = FALSE
  Depth = 0
