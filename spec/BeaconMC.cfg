SPECIFICATION Spec
INVARIANTS Keeps Right Wanting Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = 1
  Periods = 2
  Slots = {0, 1}
  Tags = {1}
