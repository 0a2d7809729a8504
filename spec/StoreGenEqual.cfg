SPECIFICATION GenSpec
INVARIANTS Holds Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Dists <- GenDists
  Sizes = {36}
  Tags = {1}
  Caps = {0, 850, 3400, 8600}
  Radii = {2000000, 64001}
  Base = 64
  Extra = 500
  Kinds = {"radius"}
  Batches = {100}
  Record = TRUE
  Depth = 14
