SPECIFICATION GenSpec
INVARIANTS Holds Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Dists <- GenDists
  Sizes = {0, 36, 186, 1500}
  Tags = {1, 2}
  Caps = {0}
  Radii = {2000000}
  Base = 64
  Extra = 750
  Kinds = {"plain"}
  Batches = {100}
  Record = TRUE
  Depth = 10
