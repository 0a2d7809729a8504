SPECIFICATION Spec
INVARIANTS Lemma
CHECK_DEADLOCK FALSE
CONSTANTS
  Local = {0, 1, 2, 7}
  Remote = {0, 1, 2, 7}
  MaxLen = 3
