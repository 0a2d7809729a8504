------------------------------- MODULE Offers -------------------------------
(***************************************************************************)
(* Offers, transfers, fall-backs, content requests and gossip of one node.  *)
(*                                                                          *)
(* c holds lim (transfer slots per direction), want (keys the storage       *)
(* wants), aff (keys that the radius applies to), v1 (peers that speak the  *)
(* newer protocol), near (peers whose radius covers everything), peers,     *)
(* cap (items the storage holds), gd (dropped items are gossiped), poke,    *)
(* have (initial items), look (keys used in lookups).                       *)
(* A value is [k, q, big, n]: the key it belongs to, its quality ("canon",  *)
(* "weak": valid but not proven canonical, "bad"), size and number.         *)
(*                                                                          *)
(* The state m:                                                             *)
(*   st    stored items [k, v], oldest first                                *)
(*   q     key being received -> [o: offerer, alts: others who offered it]  *)
(*   jobs  accepted offer -> [p, ks, batch: items to gossip at the end]     *)
(*   asks  content request sent -> [k, p, j: job or 0 for a lookup]         *)
(*         lack]                                                            *)
(*   outs  outgoing transfer -> [p, vs, codes]   (holds an outbound slot)   *)
(*   conn  connected peers     looks  key looked up -> peers that answered  *)
(*                                                                          *)
(* Plan says what follows from an event; what is left open (which of the    *)
(* alternatives is asked, which peers get the last slots) is taken from     *)
(* what was observed (e.x) by Step, which also names the broken clauses.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
NoVal == [k |-> 0, q |-> "none", big |-> FALSE, n |-> 0]

Start(c) == [st |-> [i \in 1..Len(c.have) |-> [k |-> c.have[i].k, v |-> c.have[i]]],
             q |-> <<>>, jobs |-> <<>>, asks |-> <<>>, outs |-> <<>>,
             conn |-> Range(c.peers), looks |-> <<>>]

Inbound(m) == Cardinality(DOMAIN m.jobs)
Outbound(m) == Cardinality(DOMAIN m.outs)
Has(st, k) == \E i \in 1..Len(st) : st[i].k = k
Val(st, k) == (CHOOSE x \in Range(st) : x.k = k).v
Aff(c, k) == k \in Range(c.aff)
Wanted(c, k) == Aff(c, k) => k \in Range(c.want)
Canon(k, v) == v.k = k /\ v.q = "canon"
Valid(k, v) == v.k = k /\ v.q \in {"canon", "weak"}

-----------------------------------------------------------------------------
(* Offers *)

Reason(c, m, k, taken) ==
  CASE Has(m.st, k) -> "stored"
    [] ~Has(m.st, k) /\ ~Wanted(c, k) -> "radius"
    [] ~Has(m.st, k) /\ Wanted(c, k) /\ k \in taken -> "progress"
    [] OTHER -> "accept"

RECURSIVE Reasons(_, _, _, _)
Reasons(c, m, ks, taken) ==
  IF ks = <<>> THEN <<>>
  ELSE LET r == Reason(c, m, ks[1], taken) IN
       <<r>> \o Reasons(c, m, Tail(ks), taken \cup (IF r = "accept" THEN {ks[1]} ELSE {}))

Full(c, m) == Inbound(m) >= c.lim
Codes(c, m, ks) == IF Full(c, m) THEN [i \in 1..Len(ks) |-> "limit"] ELSE Reasons(c, m, ks, DOMAIN m.q)
\* The older protocol knows only yes and no.
Spoken(c, p, codes) == IF p \in Range(c.v1) THEN codes
                       ELSE [i \in 1..Len(codes) |-> IF codes[i] = "accept" THEN "yes" ELSE "no"]
Yes(x) == x \in {"accept", "yes"}
Answerable(c, p, ks) == p \in Range(c.peers) /\ Len(ks) <= 64 /\ \A i \in 1..Len(ks) : ks[i] # 0
Pick(ks, codes) == LET F[i \in 0..Len(ks)] == IF i = 0 THEN <<>>
                                              ELSE IF Yes(codes[i]) THEN Append(F[i - 1], ks[i]) ELSE F[i - 1]
                   IN F[Len(ks)]

-----------------------------------------------------------------------------
(* Storing and gossiping *)

\* Storing v under k; the storage may drop its oldest item.
Put(c, st, k, v) ==
  IF Has(st, k) \/ ~Wanted(c, k) THEN [st |-> st, out |-> <<>>]
  ELSE LET a == Append(st, [k |-> k, v |-> v]) IN
       IF Len(a) > c.cap THEN [st |-> Tail(a), out |-> IF c.gd THEN <<Head(a)>> ELSE <<>>]
       ELSE [st |-> a, out |-> <<>>]

\* Items received in one transfer, one after the other.
RECURSIVE Deliver(_, _, _, _)
Deliver(c, st, ks, vs) ==
  IF ks = <<>> THEN [st |-> st, batch |-> <<>>]
  ELSE IF ~Canon(ks[1], vs[1]) THEN Deliver(c, st, Tail(ks), Tail(vs))
  ELSE LET p == Put(c, st, ks[1], vs[1])
           r == Deliver(c, p.st, Tail(ks), Tail(vs))
       IN [st |-> r.st, batch |-> <<[k |-> ks[1], v |-> vs[1]]>> \o p.out \o r.batch]

\* Who is offered what of a batch.
Share(c, p, batch) == {b \in Range(batch) : Aff(c, b.k) => p \in Range(c.near)}
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ListOf(S \ {x})
Offers(c, m, batch) == ListOf({[p |-> p, items |-> Share(c, p, batch)] : p \in {x \in m.conn : Share(c, x, batch) # {}}})
Pokes(c, ps, k, v) == IF c.poke THEN ListOf({[p |-> p, items |-> {[k |-> k, v |-> v]}] :
                                             p \in {x \in ps : Aff(c, k) => x \in Range(c.near)}})
                      ELSE <<>>

-----------------------------------------------------------------------------
(* What follows from an event, before anything open is decided. *)

\* needs: keys to be asked for elsewhere -> alternatives; job: the job they belong to;
\* offers: gossip due now; ends: job that ends unless requests of it are pending; res: lookup results
Plan0(m) == [m |-> m, needs |-> <<>>, job |-> 0, offers |-> <<>>, ends |-> 0, res |-> {}]

Live(m, p, ok) == IF ok THEN [m EXCEPT !.conn = @ \cup {p}] ELSE [m EXCEPT !.conn = @ \ {p}]

PlanOffer(c, m, e) ==
  LET m1 == IF e.p \in Range(c.peers) THEN Live(m, e.p, TRUE) ELSE m
      ex == Codes(c, m, e.ks)
      ok == Answerable(c, e.p, e.ks) /\ e.res = "codes" /\ Len(e.codes) = Len(e.ks)
      got == IF ok THEN Pick(e.ks, e.codes) ELSE <<>>
      more == IF ok THEN {e.ks[i] : i \in {x \in 1..Len(ex) : ex[x] = "progress"}} \cap DOMAIN m.q ELSE {}
      q1 == [k \in DOMAIN m.q \cup Range(got) |->
               IF k \notin DOMAIN m.q THEN [o |-> e.p, alts |-> {}]
               ELSE IF k \in more /\ e.p # m.q[k].o THEN [m.q[k] EXCEPT !.alts = @ \cup {e.p}] ELSE m.q[k]]
      m2 == [m1 EXCEPT !.q = q1]
  IN [Plan0(m) EXCEPT !.m = IF e.job = 0 THEN m2
                            ELSE [m2 EXCEPT !.jobs = (e.job :> [p |-> e.p, ks |-> got, batch |-> <<>>]) @@ @]]

\* Keys that failed leave the queue; an alternative is asked where the radius applies to the key.
Fallback(c, m, ks) ==
  [needs |-> [k \in {x \in ks \cap DOMAIN m.q : Aff(c, x) /\ m.q[x].alts # {}} |-> m.q[k].alts],
   q |-> [k \in DOMAIN m.q \ ks |-> m.q[k]]]

PlanRecv(c, m, e) ==
  LET j == m.jobs[e.j]
      ok == e.how = "items" /\ Len(e.vs) = Len(j.ks)
      d == IF ok THEN Deliver(c, m.st, j.ks, e.vs) ELSE [st |-> m.st, batch |-> <<>>]
      good == IF ok THEN {j.ks[i] : i \in {x \in 1..Len(j.ks) : Canon(j.ks[x], e.vs[x])}} ELSE {}
      f == Fallback(c, m, Range(j.ks) \ good)
  IN [Plan0(m) EXCEPT !.m = [m EXCEPT !.st = d.st, !.q = [k \in DOMAIN f.q \ good |-> f.q[k]],
                                      !.jobs[e.j].batch = d.batch],
                      !.needs = f.needs, !.job = e.j, !.ends = e.j]

\* A requested item arrives (or not) from peer p for ask a.
\* lack: the other peers that had answered a lookup when this transfer or check began
Arrive(c, m, a, v, got, lack) ==
  LET k == m.asks[a].k
      p == m.asks[a].p
      j == m.asks[a].j
      m1 == [m EXCEPT !.asks = Drop(@, a)]
  IN IF j # 0
     THEN IF got /\ Canon(k, v)
          THEN LET s == Put(c, m.st, k, v)
                   m2 == [m1 EXCEPT !.st = s.st]
               IN [Plan0(m) EXCEPT !.m = m2, !.ends = j, !.offers = Offers(c, m2, <<[k |-> k, v |-> v]>> \o s.out)]
          ELSE [Plan0(m) EXCEPT !.m = m1, !.ends = j]
     ELSE IF k \notin DOMAIN m.looks \/ ~got THEN [Plan0(m) EXCEPT !.m = m1]
     ELSE IF Has(m.st, k)
          THEN [Plan0(m) EXCEPT !.m = [m1 EXCEPT !.looks = Drop(@, k)], !.res = {[k |-> k, res |-> Val(m.st, k)]},
                                !.offers = Pokes(c, lack, k, Val(m.st, k))]
     ELSE IF ~Valid(k, v) THEN [Plan0(m) EXCEPT !.m = m1]
     ELSE LET s == IF Canon(k, v) THEN Put(c, m.st, k, v) ELSE [st |-> m.st, out |-> <<>>]
              new == s.st # m.st
              m2 == [m1 EXCEPT !.st = s.st, !.looks = Drop(@, k)]
          IN [Plan0(m) EXCEPT !.m = m2, !.res = {[k |-> k, res |-> v]},
                              !.offers = (IF new THEN Offers(c, m2, <<[k |-> k, v |-> v]>> \o s.out) ELSE <<>>)
                                         \o Pokes(c, lack, k, v)]

Streams(m, e) == e.how = "conn" /\ (m.asks[e.a].j # 0 \/ m.asks[e.a].k \in DOMAIN m.looks)

PlanAnswer(c, m, e) ==
  LET a == m.asks[e.a]
      m0 == Live(m, a.p, e.how \notin {"error", "garbled"})
      lk == a.j = 0 /\ a.k \in DOMAIN m.looks
      lack == IF lk THEN m.looks[a.k] ELSE {}
      m1 == IF lk THEN [m0 EXCEPT !.looks[a.k] = @ \cup {a.p}] ELSE m0
  IN CASE e.how = "content" -> Arrive(c, m1, e.a, e.v, TRUE, lack)
       [] e.how = "conn" -> IF Streams(m, e) THEN [Plan0(m) EXCEPT !.m = [m1 EXCEPT !.asks[e.a].lack = lack]]
                            ELSE Arrive(c, m1, e.a, NoVal, FALSE, {})
       [] OTHER -> Arrive(c, m1, e.a, NoVal, FALSE, {})

PlanRecvAsk(c, m, e) == Arrive(c, m, e.a, e.v, e.how = "value", m.asks[e.a].lack)

\* Content requests: what is answered when.
FindKind(c, m, e) ==
  IF e.k = 0 THEN "none"
  ELSE IF ~Has(m.st, e.k) \/ Outbound(m) >= c.lim THEN "enrs"
  ELSE IF ~Val(m.st, e.k).big THEN "content"
  ELSE IF e.p \in Range(c.peers) THEN "conn" ELSE "none"   \* no transfer to someone unknown

PlanFind(c, m, e) ==
  LET m1 == IF e.p \in Range(c.peers) THEN Live(m, e.p, TRUE) ELSE m
  IN [Plan0(m) EXCEPT !.m = IF e.out = 0 THEN m1
                            ELSE [m1 EXCEPT !.outs = (e.out :> [p |-> e.p, open |-> TRUE, serve |-> TRUE,
                                    vs |-> <<IF Has(m.st, e.k) THEN Val(m.st, e.k) ELSE NoVal>>]) @@ @]]

\* An offer of ours is answered.
Taken(e) == e.how = "codes" /\ \E i \in 1..Len(e.codes) : e.codes[i]
PlanTake(c, m, e) ==
  LET o == m.outs[e.o]
      m1 == Live(m, o.p, e.how \notin {"error", "garbled"})
      Take[i \in 0..Len(o.vs)] == IF i = 0 THEN <<>>
                                  ELSE IF i <= Len(e.codes) /\ e.codes[i] THEN Append(Take[i - 1], o.vs[i]) ELSE Take[i - 1]
  IN [Plan0(m) EXCEPT !.m = IF Taken(e) THEN [m1 EXCEPT !.outs[e.o].open = TRUE, !.outs[e.o].vs = Take[Len(o.vs)]]
                            ELSE [m1 EXCEPT !.outs = Drop(@, e.o)]]
PlanSent(c, m, e) == [Plan0(m) EXCEPT !.m = [m EXCEPT !.outs = Drop(@, e.o)]]

PlanLookup(c, m, e) ==
  IF Has(m.st, e.k) THEN [Plan0(m) EXCEPT !.res = {[k |-> e.k, res |-> Val(m.st, e.k)]}]
  ELSE IF m.conn = {} THEN [Plan0(m) EXCEPT !.res = {[k |-> e.k, res |-> NoVal]}]
  ELSE [Plan0(m) EXCEPT !.m = [m EXCEPT !.looks = (e.k :> {}) @@ @]]

Plan(c, m, e) ==
  CASE e.e = "offer" -> PlanOffer(c, m, e)
    [] e.e = "recv" -> PlanRecv(c, m, e)
    [] e.e = "answer" -> PlanAnswer(c, m, e)
    [] e.e = "recvask" -> PlanRecvAsk(c, m, e)
    [] e.e = "find" -> PlanFind(c, m, e)
    [] e.e = "take" -> PlanTake(c, m, e)
    [] e.e = "sent" -> PlanSent(c, m, e)
    [] e.e = "lookup" -> PlanLookup(c, m, e)
    [] e.e = "plant" -> [Plan0(m) EXCEPT !.m = [m EXCEPT !.st = e.x.st]]

\* Does the job end with this event, given the requests sent?  Then its batch is gossiped too.
Over(pl, asks) == pl.ends # 0 /\ asks = <<>> /\ \A a \in DOMAIN pl.m.asks : pl.m.asks[a].j # pl.ends
Due(c, pl, asks) == pl.offers \o (IF Over(pl, asks) THEN Offers(c, pl.m, pl.m.jobs[pl.ends].batch) ELSE <<>>)
Sendable(c, pl, asks) == Min(c.lim - Outbound(pl.m), Len(Due(c, pl, asks)))

-----------------------------------------------------------------------------
(* The clauses *)

\* own: requests of this event for a job; the others belong to lookups
Own(c, asks) == SelectSeq(asks, LAMBDA a : a.k \notin Range(c.look))

AskClauses(c, pl, asks) ==
  LET own == Own(c, asks) IN
  Clause("N01", {own[i].k : i \in 1..Len(own)} \subseteq DOMAIN pl.needs, "content is requested that nobody else offered or that did not fail")
  \cup Clause("N01", \A i, j \in 1..Len(own) : i # j => own[i].k # own[j].k, "several peers are asked for one failed item at once")
  \cup Clause("N01", \A i \in 1..Len(own) : own[i].k \in DOMAIN pl.needs => own[i].p \in pl.needs[own[i].k],
              "a failed item is requested from a peer that is not a remembered alternative")
  \cup Clause("N01", DOMAIN pl.needs \subseteq {own[i].k : i \in 1..Len(own)}, "a remembered alternative is not tried after the transfer failed")

Keys(items) == {b.k : b \in items}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
GossipClauses(c, pl, asks, gossip) ==
  LET due == Due(c, pl, asks)
      exp == [i \in 1..Len(due) |-> [p |-> due[i].p, ks |-> Keys(due[i].items)]]
      obs == [i \in 1..Len(gossip) |-> [p |-> gossip[i].p, ks |-> Range(gossip[i].ks)]]
      all == UNION {exp[i].ks : i \in 1..Len(exp)}
  IN Clause("N06", \A i \in 1..Len(obs) : obs[i].ks \subseteq all, "content is gossiped that was not validated as canonical")
     \cup Clause("N08", \A i \in 1..Len(obs) : Count(obs, obs[i]) <= Count(exp, obs[i]), "an offer goes to a peer that should not get it")
     \cup Clause("N08", \A i \in 1..Len(gossip) : Cardinality(Range(gossip[i].ks)) = Len(gossip[i].ks), "an item is offered twice")
     \cup Clause("N04", Outbound(pl.m) + Len(gossip) <= c.lim, "more outgoing transfers than allowed")
     \cup Clause("N04", Len(gossip) >= Sendable(c, pl, asks), "an offer is left out although a slot is free")
     \cup Clause("N06", due # <<>> /\ Sendable(c, pl, asks) > 0 => gossip # <<>>, "validated content is not passed on")

LookClauses(c, pl, looked) ==
  Clause("N06", \A x \in pl.res : x \in Range(looked), "a lookup does not return the content that was found valid")
  \cup Clause("N06", \A x \in Range(looked) : x.res.q # "none" => x \in pl.res, "a lookup returns content that was not found valid")

StoreClauses(pl, st) ==
  Clause("N06", \A i \in 1..Len(st) : st[i] \in Range(pl.m.st) \/ Canon(st[i].k, st[i].v), "content is stored that was not validated for its key")
  \cup Clause("N06", st = pl.m.st, "the storage does not hold exactly the validated content that it wants")

OfferClauses(c, m, e) ==
  LET ok == Answerable(c, e.p, e.ks)
      ex == Spoken(c, e.p, Codes(c, m, e.ks))
      n == Len(e.codes)
      real == Reasons(c, m, e.ks, DOMAIN m.q)
      limited == [i \in 1..Len(e.ks) |-> IF e.p \in Range(c.v1) THEN "limit" ELSE "no"]
      yes(i) == Yes(e.codes[i])
  IN IF ~ok
     THEN Clause("N05", e.res = "none" \/ (Full(c, m) /\ e.p \in Range(c.peers) /\ e.codes = limited), "an offer that cannot be read is answered")
          \cup Clause("N05", ~e.conn /\ e.job = 0, "a connection is opened for an offer that cannot be read")
     ELSE Clause("N05", e.res = "codes", "an offer is not answered")
          \cup (IF e.res # "codes" THEN {}
                ELSE Clause("N05", n = Len(e.ks), "not one answer per offered key")
                     \cup Clause("N05", e.codes = ex, "an offered key gets an answer that does not match the situation")
                     \cup Clause("N05", e.conn = (\E i \in 1..n : yes(i)), "a connection is announced without something accepted, or not announced")
                     \cup Clause("N05", (e.job # 0) = (\E i \in 1..n : yes(i)), "no stream is opened for accepted content, or one without")
                     \cup (IF n # Len(e.ks) THEN {}
                           ELSE Clause("N01", \A i \in 1..n : yes(i) => e.ks[i] \notin DOMAIN m.q, "an item is accepted while it is being received")
                                \cup Clause("N01", \A i, j \in 1..n : yes(i) /\ yes(j) /\ i # j => e.ks[i] # e.ks[j], "an item is accepted twice in one offer")
                                \cup Clause("N01", ~Full(c, m) => \A i \in 1..n : real[i] = "accept" => yes(i), "an item nobody is transferring is not accepted")
                                \cup Clause("N04", Full(c, m) => \A i \in 1..n : ~yes(i), "more incoming transfers than allowed")
                                \cup Clause("N04", ~Full(c, m) => \A i \in 1..n : e.codes[i] # "limit" /\ (real[i] = "accept" => yes(i)),
                                            "an offer is declined although a slot is free")))

FindClauses(c, m, e) ==
  LET kind == FindKind(c, m, e)
      conn == m.conn \cup (Range(c.peers) \cap {e.p})
  IN Clause("N09", e.res = kind, "a content request gets another kind of answer than it should")
     \cup Clause("N09", e.res = "content" => Has(m.st, e.k) /\ e.v = Val(m.st, e.k), "a content request is answered with other content")
     \cup Clause("N09", (e.out # 0) = (e.res = "conn"), "a transfer is announced but not started, or started but not announced")
     \cup Clause("N07", e.p \notin Range(e.names) /\ Range(e.names) \subseteq conn, "a peer is named that is not connected or asked itself")
     \cup Clause("N09", e.res = "enrs" => Range(e.names) = IF Aff(c, e.k) THEN conn \ {e.p} ELSE {}, "a content request names the wrong peers")
     \cup Clause("N04", e.out # 0 => Outbound(m) < c.lim, "more outgoing transfers than allowed")
     \cup Clause("N04", kind = "conn" => e.out # 0, "a transfer is declined although a slot is free")

\* Bytes written are what was accepted, in order.
SentClauses(c, m, e) ==
  Clause("N06", e.wrote = <<>> \/ e.wrote = m.outs[e.o].vs, "other content is sent than was offered and accepted")
  \cup Clause("N06", e.how \in {"ok", "short", "unclosed", "broken"} => e.wrote # <<>>, "nothing is sent although content was accepted")

Ask(pl, x) == [k |-> x.k, p |-> x.p, lack |-> {}, j |-> IF x.k \in DOMAIN pl.needs THEN pl.job ELSE 0]
Step(c, m, e) ==
  LET pl == Plan(c, m, e)
      asks == e.x.asks
      own == Own(c, asks)
      due == Due(c, pl, own)
      m1 == IF Over(pl, own) THEN [pl.m EXCEPT !.jobs = Drop(@, pl.ends)] ELSE pl.m
      m2 == [m1 EXCEPT !.asks = [a \in DOMAIN @ \cup {asks[i].id : i \in 1..Len(asks)} |->
                                   IF a \in DOMAIN m1.asks THEN m1.asks[a]
                                   ELSE Ask(pl, CHOOSE x \in Range(asks) : x.id = a)]]
      items == UNION {due[i].items : i \in 1..Len(due)}
      valOf(k) == IF \E b \in items : b.k = k THEN (CHOOSE b \in items : b.k = k).v ELSE NoVal
      m3 == [m2 EXCEPT !.outs = [o \in DOMAIN @ \cup {e.x.gossip[i].id : i \in 1..Len(e.x.gossip)} |->
                                   IF o \in DOMAIN m2.outs THEN m2.outs[o]
                                   ELSE LET g == CHOOSE x \in Range(e.x.gossip) : x.id = o IN
                                        [p |-> g.p, open |-> FALSE, serve |-> FALSE, vs |-> [i \in 1..Len(g.ks) |-> valOf(g.ks[i])]]],
                       !.looks = [k \in DOMAIN @ \ {x.k : x \in Range(e.x.looked)} |-> @[k]],
                       !.st = e.x.st]
  IN [m |-> m3,
      bad |-> AskClauses(c, pl, asks) \cup GossipClauses(c, pl, own, e.x.gossip)
              \cup LookClauses(c, pl, e.x.looked) \cup StoreClauses(pl, e.x.st)
              \cup Clause("N05", e.x.stray = 0, "a connection or message that nobody asked for")
              \cup (CASE e.e = "offer" -> OfferClauses(c, m, e)
                      [] e.e = "find" -> FindClauses(c, m, e)
                      [] e.e = "sent" -> SentClauses(c, m, e)
                      [] e.e = "answer" -> Clause("N01", e.opened = Streams(m, e), "an announced transfer is not fetched, or one that was not announced")
                      [] e.e = "take" -> Clause("N04", e.opened = Taken(e), "an accepted offer is not followed by a transfer, or a declined one is")
                      [] OTHER -> {})]

-----------------------------------------------------------------------------
(* Invariants of the design *)

SlotsOk(c, m) == Inbound(m) <= c.lim /\ Outbound(m) <= c.lim
\* An item is in the queue exactly while one transfer of it from its offerer is open.
OpenJobs(m, openJobs) == {j \in DOMAIN m.jobs : j \in openJobs}
OneTransfer(m, openJobs) ==
  \A k \in DOMAIN m.q : /\ Cardinality({j \in OpenJobs(m, openJobs) : k \in Range(m.jobs[j].ks)}) = 1
                        /\ m.q[k].o \notin m.q[k].alts
NoStuck(m, openJobs) == \A j \in OpenJobs(m, openJobs) : Range(m.jobs[j].ks) \subseteq DOMAIN m.q
\* A job whose transfer is over lives only as long as requests for its items are pending.
NoLeak(m, openJobs) == \A j \in DOMAIN m.jobs \ openJobs : \E a \in DOMAIN m.asks : m.asks[a].j = j
OnlyValid(m) == \A i \in 1..Len(m.st) : Canon(m.st[i].k, m.st[i].v)
=============================================================================
