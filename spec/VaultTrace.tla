----------------------------- MODULE VaultTrace -----------------------------
EXTENDS TraceBase
Z == INSTANCE Vault WITH Blocks <- 8192, Short <- 5362, Full <- 10000000
UInit(cfg) == 0
UStep(cfg, p, e) ==
  CASE e.e = "panic" -> {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
    [] OTHER -> {[s |-> p, bad |-> Z!Clauses(e)]}
=============================================================================
