---------------------------- MODULE CensusTrace -----------------------------
EXTENDS TraceBase
Z == INSTANCE Census WITH Drop <- 10, Bound <- 900, Many <- 100
UInit(cfg) == Z!Empty(cfg.n)
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> Z!Next(cfg, p, e), bad |-> Z!Clauses(cfg, p, e)]}
=============================================================================
