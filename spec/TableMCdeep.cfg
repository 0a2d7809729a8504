SPECIFICATION Spec
INVARIANTS Holds Live Newest Bounded Sane
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 2, 130}
  Seqs = {1, 2}
  Nets = {"beacon", "both"}
  Rads = {0, 523}
  MaxSteps = 4
