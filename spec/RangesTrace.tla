----------------------------- MODULE RangesTrace -----------------------------
EXTENDS Ranges, TraceBase
RInit(cfg) == [n |-> 0]
RStep(cfg, p, e) ==
  {[s |-> p, bad |->
    CASE e.e = "panic" -> {<<"ANY", "the code panicked">>}
      [] e.e = "split" -> SplitOk(e.a, e.b, e)
      [] e.e = "request" -> RequestOk(e)]}
=============================================================================
