----------------------------- MODULE BlocksTrace -----------------------------
EXTENDS Blocks, TraceBase
BInit(cfg) == [n |-> 0]
BStep(cfg, p, e) ==
  {[s |-> p, bad |->
    CASE e.e = "panic" -> {<<"ANY", "the code panicked">>}
      [] e.e = "own" -> OwnBad(cfg, e)
      [] e.e = "body" -> BodyBad(cfg, e)
      [] e.e = "receipts" -> ReceiptsBad(cfg, e)
      [] e.e = "head" -> HeadBad(cfg, e)
      [] e.e = "other" -> OtherBad(e)]}
=============================================================================
