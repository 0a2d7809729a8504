----------------------------- MODULE FeedTrace -----------------------------
EXTENDS TraceBase
F == INSTANCE Feed
Peers == 1..3
Clause(p, ok, txt) == IF ok THEN {} ELSE {<<p, txt>>}
Outs == {"ok", "declined", "failed"}
Key(o, p) == o \o ToString(p)
Out(a) == IF a \in {"ok", "declined"} THEN a ELSE "failed"
FInit(cfg) == [f |-> F!Start, due |-> [p \in Peers |-> [o \in Outs |-> 0]]]
Offers(e) == {e.offers[i] : i \in DOMAIN e.offers}
Items(e) == {<<x.kind, x.n>> : x \in Offers(e)}
To(e, p) == SelectSeq(e.offers, LAMBDA x : x.p = p)
Due(q, e) == [p \in Peers |-> [o \in Outs |-> q.due[p][o] + (IF Out(e.ans[p]) = o THEN Len(To(e, p)) ELSE 0)]]
Chosen(e) == {e.cp[i] : i \in DOMAIN e.cp}

Clauses(q, e) ==
  LET must == F!Must(q.f, e)
      may == F!May(q.f, e)
      due == Due(q, e)
  IN Clause("C05", \A x \in Offers(e) : x.kind = "other" \/ \E y \in may : y[1] = x.kind, "something is offered that is not new or not due")
     \cup Clause("C05", \A x \in Items(e) : (\E y \in may : y[1] = x[1]) => x \in may, "an item is offered under a key that is not its own")
     \cup Clause("C05", \A x \in Offers(e) : x.ok, "a value is offered that does not belong to its key")
     \cup Clause("C05", \A y \in must : \E x \in Items(e) : x[1] = y[1], "something new is not offered")
     \cup Clause("C05", \A x \in Items(e) : \A p \in Peers :
                          Cardinality({i \in DOMAIN e.offers : e.offers[i].p = p /\ <<e.offers[i].kind, e.offers[i].n>> = x}) = (IF p \in Chosen(e) THEN 1 ELSE 0),
                 "an item is not offered once to each chosen peer")
     \cup Clause("C05", \A p \in Peers : \A o \in Outs : e.told[Key(o, p)] <= due[p][o], "the census is told of an offer that has not ended so")
EndClauses(q, e) ==
  Clause("C05", \A p \in Peers : \A o \in Outs : e.told[Key(o, p)] = q.due[p][o], "the census does not learn once how each offer ended")
   \cup Clause("C05", \A p \in Peers : e.told[Key("other", p)] = 0, "an offer is reported for another network")

FStep(cfg, q, e) ==
  CASE e.e = "panic" -> {[s |-> q, bad |-> {<<"ANY", "the code panicked">>}]}
    \* offers that had begun in the last slot
    [] e.e = "end" -> {[s |-> q, bad |-> EndClauses(q, e)]}
    [] OTHER -> {[s |-> [f |-> k, due |-> Due(q, e)], bad |-> Clauses(q, e)] : k \in F!Steps(q.f, e)}
=============================================================================
