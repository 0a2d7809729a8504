SPECIFICATION Spec
INVARIANTS Lemma
CHECK_DEADLOCK FALSE
CONSTANTS
  Epoch = 4
  Epochs = {0, 1, 2, 3}
  Offsets = {0, 1, 2, 3}
  Bases = {0}
