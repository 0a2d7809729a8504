SPECIFICATION Spec
INVARIANTS Holds Fits Covered
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3, 4}
  Dists <- MCDists
  Sizes = {1, 2}
  Tags = {1}
  Caps = {0, 5, 8}
  Radii = {2000000, 40}
  Base = 0
  Extra = 1
  Kinds = {"radius", "plain"}
  Batches = {1, 100}
  Record = FALSE
  Depth = 0
