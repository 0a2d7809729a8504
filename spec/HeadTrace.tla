------------------------------ MODULE HeadTrace ------------------------------
EXTENDS TraceBase
H == INSTANCE Head
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
CInit(cfg) == H!Start
CStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE LET a == IF e.e = "burst" THEN H!GivenAll(p, Flat(e.parts)) ELSE H!Given(p, e)
       IN {[s |-> a, bad |-> H!LooksOk(p, a, e.seen, 1)]}
=============================================================================
