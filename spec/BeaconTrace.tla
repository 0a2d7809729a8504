----------------------------- MODULE BeaconTrace -----------------------------
EXTENDS TraceBase
B == INSTANCE Beacon
CInit(cfg) == B!Empty(Len(cfg.ages), 12)
CStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE {[s |-> B!Next(p, e), bad |-> B!Clauses(cfg, p, e)]}
=============================================================================
