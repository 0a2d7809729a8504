----------------------------- MODULE GossipTrace -----------------------------
(* Recorded batches.                                                         *)
EXTENDS Gossip, TraceBase

GInit(cfg) == 0

GStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE {[s |-> p, bad |-> BatchBad(e)]}
=============================================================================
