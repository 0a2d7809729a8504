SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Epoch = 8192
  Epochs = {0, 1, 2, 4}
  Offsets = {0, 1, 4095, 8190, 8191}
  Bases = {0, 1, 1000, 999999}
