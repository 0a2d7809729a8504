---------------------------- MODULE DispatchTrace ----------------------------
(* Recorded deliveries.                                                      *)
EXTENDS Dispatch, TraceBase

DInit(cfg) == 0

DStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE {[s |-> p, bad |-> BurstBad(cfg, e)]}
=============================================================================
