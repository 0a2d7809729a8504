---------------------------- MODULE BridgeTrace ----------------------------
EXTENDS TraceBase
B == INSTANCE Bridge
BInit(cfg) == B!Start
BStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> B!Next(cfg, p, e), bad |-> B!Clauses(cfg, p, e)]}
=============================================================================
