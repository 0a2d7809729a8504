----------------------------- MODULE WantsTrace -----------------------------
EXTENDS TraceBase
W == INSTANCE Wants
UInit(cfg) == W!Unknown
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> W!Next(e), bad |-> W!Clauses(cfg, p, e)]}
=============================================================================
