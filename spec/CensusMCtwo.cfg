SPECIFICATION Spec
INVARIANTS Design Queued
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1, 2}
  Every = 1
  Last = 1
  MaxSeq = 1
  MaxOffers = 2
  DropAfter = 2
  Gap = 1
  Tries = 3
  Start = 3
