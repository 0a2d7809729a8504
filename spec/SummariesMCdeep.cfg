SPECIFICATION Spec
INVARIANTS Design Served
CHECK_DEADLOCK FALSE
CONSTANTS
  Pers = {1, 2, 3, 5}
  Poss = {0, 33}
  Lens = {0, 1, 2, 4}
  MaxSteps = 5
