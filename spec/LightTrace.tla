------------------------------ MODULE LightTrace ------------------------------
EXTENDS TraceBase
L == INSTANCE Light WITH P <- 8192, N <- 512
CInit(cfg) == L!Nobody
CStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE LET b == L!Clauses(cfg, p, e) IN {[s |-> x, bad |-> b] : x \in L!Next(cfg, p, e)}
=============================================================================
