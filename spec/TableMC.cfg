SPECIFICATION Spec
INVARIANTS Holds Live Newest Bounded Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 130}
  Seqs = {1, 2}
  Nets = {"both"}
  Rads = {0, 523}
  MaxSteps = 4
