----------------------------- MODULE CellsTrace -----------------------------
EXTENDS TraceBase
Z == INSTANCE Cells
UInit(cfg) == Z!Empty(cfg.n)
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> Z!Next(p, e), bad |-> Z!Clauses(cfg, p, e)]}
=============================================================================
