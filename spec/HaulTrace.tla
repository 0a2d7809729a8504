----------------------------- MODULE HaulTrace -----------------------------
EXTENDS TraceBase
H == INSTANCE Haul
Peers == 1..3
Outs == {"ok", "declined", "failed"}
Clause(p, ok, txt) == IF ok THEN {} ELSE {<<p, txt>>}
None == [p \in Peers |-> [o \in Outs |-> 0]]
HInit(cfg) == [h |-> H!Start(cfg), told |-> None, strange |-> 0]
Told(cfg, over) == [p \in Peers |-> [o \in Outs |-> Cardinality({x \in over : x[3] = p /\ H!Out(cfg, x[1], x[2], p) = o})]]

BeginClauses(cfg, q, e) ==
  LET o == <<e.b, e.kind, e.p>>
      known == e.kind \in H!KindSet /\ e.b \in DOMAIN cfg.blocks
      wanted == known /\ e.b \in H!Wanted(cfg)
  IN Clause("C06", wanted, "something is offered that is no item of a sound block in the range")
     \cup Clause("C06", e.ok, "a value is offered that does not belong to its key")
     \cup Clause("C06", known => e.p \in H!Chosen(cfg, e.b, e.kind), "an item is offered to a peer not chosen for it")
     \cup Clause("C06", o \notin q.h.active \cup q.h.over, "an item is offered to a peer twice")
     \cup Clause("C06", Cardinality(q.h.active) < cfg.limit, "more offers are under way at once than configured")
     \cup Clause("C06", wanted => H!Due(cfg, q.h, e.b, e.kind, e.t), "an item is offered before its header had the time to spread")
DoneClauses(cfg, q) ==
  Clause("C06", H!All(cfg) \subseteq q.h.over, "an item of a block in the range is not offered to each chosen peer")
   \cup Clause("C06", q.h.active = {}, "the bridge ends while offers are under way")
   \cup Clause("C06", q.told = Told(cfg, q.h.over) /\ q.strange = 0, "the census does not learn once how each offer ended")

HStep(cfg, q, e) ==
  CASE e.e = "panic" -> {[s |-> q, bad |-> {<<"ANY", "the code panicked">>}]}
    [] e.e = "begin" -> {[s |-> [q EXCEPT !.h = H!Begin(@, <<e.b, e.kind, e.p>>)], bad |-> BeginClauses(cfg, q, e)]}
    [] e.e = "end" -> {[s |-> [q EXCEPT !.h = H!End(@, <<e.b, e.kind, e.p>>, e.t)], bad |-> {}]}
    [] e.e = "told" -> {[s |-> IF e.p \in Peers /\ e.out \in Outs THEN [q EXCEPT !.told[e.p][e.out] = @ + 1] ELSE [q EXCEPT !.strange = @ + 1], bad |-> {}]}
    [] e.e = "hang" -> {[s |-> q, bad |-> {<<"C06", "the bridge does not come to an end">>}]}
    [] OTHER -> {[s |-> q, bad |-> DoneClauses(cfg, q)]}
=============================================================================
