---------------------------- MODULE DirectTrace ----------------------------
(* Recorded histories of requests to named peers.                            *)
EXTENDS Direct, TraceBase

DInit(cfg) == <<>>
DStep(cfg, m, e) == Follow(cfg, m, e)
=============================================================================
