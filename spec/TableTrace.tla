----------------------------- MODULE TableTrace ------------------------------
(* Recorded histories of a node and its peers.                               *)
EXTENDS Table, TraceBase

BInit(cfg) == Start(cfg)

BStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE LET r == Step(cfg, p, e) IN {[s |-> r.m, bad |-> r.bad]}
=============================================================================
