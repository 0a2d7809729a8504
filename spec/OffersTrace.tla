----------------------------- MODULE OffersTrace -----------------------------
(* Recorded histories of a node that is offered content and passes it on.    *)
EXTENDS Offers, TraceBase

OInit(cfg) == Start(cfg)

OStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE LET r == Step(cfg, p, e) IN {[s |-> r.m, bad |-> r.bad]}
=============================================================================
