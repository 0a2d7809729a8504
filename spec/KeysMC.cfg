SPECIFICATION Spec
INVARIANTS Lemma
CHECK_DEADLOCK FALSE
CONSTANTS
  Full = TRUE
