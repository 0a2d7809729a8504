----------------------------- MODULE SharesTrace -----------------------------
EXTENDS Shares, TraceBase
HInit(cfg) == [n |-> 0]
HStep(cfg, p, e) ==
  {[s |-> p, bad |->
    CASE e.e = "panic" -> {<<"ANY", "the code panicked">>}
      [] e.e = "combined" -> CombinedOk(e.total, {e.nets[i] : i \in 1..Len(e.nets)}, e.got) \cup OthersOk(e.others)
      [] e.e = "specific" -> SpecificOk(e.spec, e.got) \cup OthersOk(e.others)]}
=============================================================================
