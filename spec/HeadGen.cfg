SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Slots = {0, 1, 2, 3, 4, 5, 6}
  Lens = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Forks = {"bellatrix", "capella", "deneb", "electra"}
  MaxSteps = 14
