----------------------------- MODULE SeekTrace -----------------------------
(* Recorded histories of the overlay service with several lookups.           *)
EXTENDS Seek, TraceBase

KInit(cfg) == Start
KStep(cfg, m, e) == Follow(cfg, m, e)
=============================================================================
