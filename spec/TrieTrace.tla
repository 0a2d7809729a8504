----------------------------- MODULE TrieTrace -----------------------------
EXTENDS TraceBase
Z == INSTANCE Trie
UInit(cfg) == 0
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> p, bad |-> Z!Judged(e, e.out)]}
=============================================================================
