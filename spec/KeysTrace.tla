------------------------------ MODULE KeysTrace ------------------------------
EXTENDS Keys, TraceBase
KInit(cfg) == [n |-> 0]
KStep(cfg, p, e) ==
  {[s |-> p, bad |->
    CASE e.e = "panic" -> {<<"ANY", "the code panicked">>}
      [] e.e = "key" -> KeyBad(e)
      [] e.e = "rawkey" -> RawBad(e)]}
=============================================================================
