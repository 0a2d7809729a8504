SPECIFICATION GenSpec
INVARIANTS Holds Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Starts <- GenStarts
  Pars = {1, 2, 3}
  Nums = {1, 2, 4}
  Ttl = 2
  MaxNow = 20
  Kinds = {"content"}
  MaxNames = 3
  Record = TRUE
  Depth = 40
