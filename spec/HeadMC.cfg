SPECIFICATION Spec
INVARIANTS Design Forward
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {1, 2, 3, 4}
  Lens = {0, 2, 3, 5}
  Forks = {"electra"}
  MaxSteps = 3
