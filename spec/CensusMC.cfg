SPECIFICATION Spec
INVARIANTS Design Queued
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1}
  Every = 1
  Last = 4
  MaxSeq = 2
  MaxOffers = 3
  DropAfter = 2
  Gap = 1
  Tries = 3
  Start = 3
