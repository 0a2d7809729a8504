--------------------------- MODULE SummariesTrace ---------------------------
EXTENDS TraceBase
Z == INSTANCE Summaries
UInit(cfg) == Z!Start(cfg)
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] e.e = "ask" -> {Z!AskStep(cfg, p, e)}
    [] OTHER -> {Z!AnswerStep(cfg, p, e)}
=============================================================================
