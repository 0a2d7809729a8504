---------------------------- MODULE VersionsTrace ----------------------------
EXTENDS Versions, TraceBase
VInit(cfg) == [n |-> 0]
VStep(cfg, p, e) ==
  {[s |-> p, bad |-> IF e.e = "panic" THEN {<<"ANY", "the code panicked">>}
                     ELSE NegotiationOk(e.local, e.other, e)]}
=============================================================================
