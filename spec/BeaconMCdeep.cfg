SPECIFICATION Spec
INVARIANTS Keeps Right Wanting Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
  Ids = 2
  Periods = 2
  Slots = {0, 1}
  Tags = {1}
