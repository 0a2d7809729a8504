------------------------------ MODULE Dispatch -------------------------------
(* The dispatcher between discovery, the sub-networks and uTP.                *)
(* c says for every sub-network whether it is "on", "off" (not configured)    *)
(* or "gone" (ended).  An item is [id, what: "talk" or "event", net: protocol *)
(* named, or network that sends the event, all, to].  e.got lists everything  *)
(* that was delivered: [net, what, id].                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[i] : i \in DOMAIN f}
Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Nets == {"history", "state", "beacon"}

Running(c) == {n \in Nets : c[n] = "on"}

\* Where an item has to arrive.
Due(c, i) ==
  IF i.what = "talk" THEN {i.net} \cap (Running(c) \cup {"utp"})
  ELSE IF c[i.net] = "off" THEN {}
  ELSE ((IF i.all THEN Nets ELSE Range(i.to)) \ {i.net}) \cap Running(c)

Count(l, n, i) == Cardinality({x \in 1..Len(l) : l[x].net = n /\ l[x].id = i.id /\ l[x].what = i.what})

BurstBad(c, e) ==
  LET ids == {e.items[i].id : i \in 1..Len(e.items)} IN
  Clause("N10", \A i \in Range(e.items) : \A n \in Due(c, i) : Count(e.got, n, i) >= 1, "something does not reach a network it belongs to")
  \cup Clause("N10", \A i \in Range(e.items) : \A n \in Due(c, i) : Count(e.got, n, i) <= 1, "something reaches a network twice")
  \cup Clause("N10", \A i \in Range(e.items) : \A n \in (Nets \cup {"utp"}) \ Due(c, i) : Count(e.got, n, i) = 0, "something reaches a network it does not belong to")
  \cup Clause("N10", \A x \in Range(e.got) : x.id \in ids, "something is delivered that was not sent")
=============================================================================
