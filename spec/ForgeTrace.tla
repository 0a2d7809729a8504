---------------------------- MODULE ForgeTrace ----------------------------
EXTENDS Forge, TraceBase
FInit(cfg) == [n |-> 0]
FStep(cfg, p, e) ==
  {[s |-> p, bad |-> IF e.e = "panic" THEN {<<"ANY", "the code panicked">>} ELSE ForgeOk(e)]}
=============================================================================
