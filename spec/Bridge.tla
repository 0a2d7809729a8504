------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* The bridge that follows the head of the chain and offers to the network  *)
(* what it reads from a consensus and an execution node.                    *)
(*                                                                          *)
(* Blocks are numbered; par gives the parent of each, 0 one that nobody     *)
(* has, slot its slot (the period ends before slot 100), buf the length of  *)
(* a bundle, hl and nl how many offers at the head, and of proven headers,  *)
(* may be under way at once.                                                *)
(*                                                                          *)
(* "head" announces a block b; the nodes then give every block except those *)
(* in miss, and the receipts, asked for by number, of the chain that ends   *)
(* with view.  "update" announces that b is attested.  "final" announces    *)
(* the checkpoint b of an epoch; epoch 5 is the one that ends the period.   *)
(* rp and cp are the peers that the census names for headers and for an     *)
(* item, ans is how each peer answers.                                      *)
(*                                                                          *)
(* must: blocks that the bridge has been given, with their receipts, while  *)
(* following an announced head, and that no period has closed since; may:   *)
(* all it has been given, except what it has offered with a proof.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
End == 100

RECURSIVE Chain(_, _, _)
Chain(c, b, k) == IF b = 0 \/ k = 0 THEN <<>> ELSE <<b>> \o Chain(c, c.par[b], k - 1)
Whole(c, b) == Chain(c, b, Len(c.par))

Start == [must |-> {}, may |-> {}]

\* What the bridge learns at a head: it goes back from the head, asks for what it lacks, and stops where it gets no answer.
RECURSIVE Learn(_, _, _, _, _)
Learn(c, must, e, b, k) ==
  IF b = 0 \/ k = 0 THEN {}
  ELSE IF b \in must THEN Learn(c, must, e, c.par[b], k - 1)
  ELSE IF b \in Range(e.miss) \/ b \notin Range(Whole(c, e.view)) THEN {}
  ELSE {b} \cup Learn(c, must, e, c.par[b], k - 1)

\* The blocks that follow c's block b downwards as long as they are in S.
RECURSIVE Run(_, _, _)
Run(c, b, S) == IF b = 0 \/ b \notin S THEN {} ELSE {b} \cup Run(c, c.par[b], S)

Complete(c, b, S) == LET q == Chain(c, b, c.buf) IN Len(q) = c.buf /\ Range(q) \subseteq S
Closes(e) == e.epoch = 5
Below(c, S) == {x \in S : c.slot[x] < End}
\* Ancestors of the checkpoint, known one after the other.
Ancestors(c, b, S) == IF b \in S THEN Run(c, c.par[b], S) ELSE {}

Next(c, m, e) ==
  CASE e.e = "head" -> [must |-> m.must \cup Learn(c, m.must, e, e.b, c.buf), may |-> m.may \cup Range(e.given)]
    [] e.e = "final" /\ Closes(e) -> [must |-> m.must \ Below(c, m.must),
                                      may |-> (m.may \ {o.x.id : o \in Range(e.offers)}) \cup Range(e.given)]
    [] OTHER -> [m EXCEPT !.may = @ \cup Range(e.given)]

\* Offers of single items: each of these kinds, of each of these blocks, to each of these peers, once.
Exactly(offers, kinds, ids, peers) ==
  /\ Len(offers) = Cardinality(kinds) * Cardinality(ids) * Cardinality(peers)
  /\ {<<o.p, o.x.kind, o.x.id>> : o \in Range(offers)} = peers \X kinds \X ids
Genuine(items) == \A x \in items : x.id # 0 /\ x.ok
Headers(q) == [i \in DOMAIN q |-> [kind |-> "header", id |-> q[i], ok |-> TRUE]]
Outcome(a) == IF a \in {"ok", "declined"} THEN a ELSE "failed"
Reports(e) == {[p |-> p, out |-> Outcome(e.ans[p]), n |-> Cardinality({i \in DOMAIN e.offers : e.offers[i].p = p})] :
                 p \in {o.p : o \in Range(e.offers)}}

General(c, e) ==
     Clause("C04", e.hm <= c.hl /\ e.nm <= c.nl, "more offers are under way at once than configured")
  \cup Clause("C04", e.open = 0, "an offer is never given up")
  \cup Clause("C04", Range(e.told) = Reports(e), "the census is not told once how each offer ended")
  \cup Clause("C04", Genuine({o.x : o \in Range(e.offers)} \cup UNION {Range(q.x) : q \in Range(e.series)}),
              "an item is offered that is not what its key says")

Update(c, m, e) ==
  LET q == Chain(c, e.b, c.buf)
      some == e.series # <<>> \/ e.offers # <<>>
      all == /\ Len(e.series) = Len(e.rp) /\ {s.p : s \in Range(e.series)} = Range(e.rp)
             /\ Exactly(e.offers, {"body", "receipts"}, Range(q), Range(e.cp))
  IN Clause("C04", some => Complete(c, e.b, m.may \cup Range(e.given)), "a chain is offered of which a part is missing")
     \cup Clause("C04", (some \/ Complete(c, e.b, m.must)) => all, "an attested head is not offered as a whole")
     \cup Clause("C04", \A s \in Range(e.series) : s.x = Headers(q), "the headers offered are not the head and its ancestors in order")
     \cup Clause("C04", e.gap >= 2000, "bodies or receipts are offered before the headers have settled")

Final(c, m, e) ==
  LET ids == {o.x.id : o \in Range(e.offers)}
      least == IF Closes(e) THEN Ancestors(c, e.b, m.must) ELSE {}
      most == IF Closes(e) THEN Run(c, c.par[e.b], m.may \cup Range(e.given)) ELSE {}
  IN Clause("C04", e.series = <<>> /\ ids \subseteq most, "headers are offered that the finalised period does not prove")
     \cup Clause("C04", e.cp # <<>> => least \subseteq ids, "an ancestor of the checkpoint is not offered")
     \cup Clause("C04", Exactly(e.offers, {"hash", "number"}, ids, IF ids = {} THEN {} ELSE Range(e.cp)),
                 "a proven header is not offered under its hash and its number to each peer once")

Clauses(c, m, e) ==
  General(c, e) \cup
  CASE e.e = "update" -> Update(c, m, e)
    [] e.e = "final" -> Final(c, m, e)
    [] OTHER -> Clause("C04", e.series = <<>> /\ e.offers = <<>>, "a head is offered before it is attested")
=============================================================================
