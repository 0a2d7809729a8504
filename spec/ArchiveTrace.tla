---------------------------- MODULE ArchiveTrace ----------------------------
EXTENDS TraceBase
Z == INSTANCE Archive
UInit(cfg) == 0
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> p, bad |-> Z!Clauses(e)]}
=============================================================================
