SPECIFICATION Spec
INVARIANTS Lemma
CHECK_DEADLOCK FALSE
CONSTANTS
  Totals = {0, 1, 3, 100, 4294, 4295, 8589, 1000001, 2147483646, 2147483647}
