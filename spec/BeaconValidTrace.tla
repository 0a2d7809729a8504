--------------------------- MODULE BeaconValidTrace ---------------------------
EXTENDS TraceBase
B == INSTANCE BeaconValid WITH P <- 8192, N <- 512, Limit <- 864000
CInit(cfg) == 0
CStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE {[s |-> p, bad |-> B!Clauses(cfg, e)]}
=============================================================================
