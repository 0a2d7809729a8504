SPECIFICATION Spec
INVARIANTS Holds Fits Covered
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Dists <- MCDistsDeep
  Sizes = {1, 2, 3}
  Tags = {1, 2}
  Caps = {0, 3, 6, 9}
  Radii = {2000000, 40}
  Base = 0
  Extra = 1
  Kinds = {"radius", "plain"}
  Batches = {1, 2, 100}
  Record = FALSE
  Depth = 0
