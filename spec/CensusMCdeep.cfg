SPECIFICATION Spec
INVARIANTS Design Queued
CHECK_DEADLOCK FALSE
CONSTANTS
  Peers = {1}
  Every = 1
  Last = 5
  MaxSeq = 3
  MaxOffers = 5
  DropAfter = 3
  Gap = 1
  Tries = 5
  Start = 6
