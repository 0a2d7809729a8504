---------------------------- MODULE HeadersTrace ----------------------------
EXTENDS Headers, TraceBase
HInit(cfg) == [n |-> 0]
HStep(cfg, p, e) ==
  {[s |-> p, bad |-> IF e.e = "panic" THEN {<<"ANY", "the code panicked">>} ELSE HeaderOk(e)]}
=============================================================================
