------------------------------ MODULE CensusMC ------------------------------
(* The census as it is designed: a queue of due checks and a list of the      *)
(* latest outcomes per peer, and a weight as the clamped sum of what a peer   *)
(* did.  Every step the design can take is judged by the clauses.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Peers, Every, Last, MaxSeq, MaxOffers, DropAfter, Gap, Tries, Start
Z == INSTANCE Census WITH Drop <- DropAfter, Bound <- Gap, Many <- Tries
VARIABLES m, now, due, seen, bad
vars == <<m, now, due, seen, bad>>
cfg == [n |-> Cardinality(Peers), limit |-> Cardinality(Peers)]
\* weights: start, success, failure, setback
Weight(x) ==
  LET w == Start + Z!Wins(x) - 2 * Z!Losses(x) - x.offers.limited - 2 * x.offers.far - x.offers.declined
  IN IF ~x.known THEN 0 ELSE IF w < 0 THEN 0 ELSE IF w > 2 * Start THEN 2 * Start ELSE w
At(p) == m.at[1][p]
Init == m = [Z!Empty(cfg.n) EXCEPT !.runs = {1}] /\ now = 0 /\ due = [p \in Peers |-> 0] /\ seen = [p \in Peers |-> 0] /\ bad = {}
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN s ELSE Run([m |-> Z!Next(cfg, s.m, Head(es)), bad |-> s.bad \cup Z!Clauses(cfg, s.m, Head(es))], Tail(es))
Did(es) == LET r == Run([m |-> m, bad |-> {}], es) IN m' = r.m /\ bad' = r.bad
Find(f) == /\ m.old[1] = {} /\ seen # f /\ seen' = f
           /\ Did(<<[e |-> "find", net |-> 1, recs |-> [p \in Peers |-> <<p, f[p]>>]]>>)
           /\ UNCHANGED <<now, due>>
\* a check, due or because the peer was found
Check(p, used, out, pong, got) ==
  /\ LET ping == [e |-> "ping", net |-> 1, p |-> p, t |-> now, used |-> used, out |-> out, pong |-> pong, rad |-> 1]
         fetch == [e |-> "fetch", net |-> 1, p |-> p, t |-> now, out |-> IF got = 0 THEN "none" ELSE "rec", rec |-> got]
     IN Did(IF out = "ok" /\ pong > used THEN <<ping, fetch>> ELSE <<ping>>)
  /\ due' = [due EXCEPT ![p] = IF m'.at[1][p].known THEN now + Every ELSE 0]
  /\ UNCHANGED <<now, seen>>
Due(p) == At(p).known /\ due[p] = now
Tick == /\ now < Last /\ \A p \in Peers : ~Due(p)
        /\ now' = now + 1 /\ Did(<<[e |-> "tick", t |-> now + 1, alive |-> TRUE]>>)
        /\ UNCHANGED <<due, seen>>
Offer(p, h) == /\ At(p).known /\ Z!All(At(p)) < MaxOffers
               /\ Did(<<[e |-> "offer", net |-> 1, p |-> p, how |-> h, times |-> 1]>>) /\ UNCHANGED <<now, due, seen>>
Chosen == {p \in Peers : Weight(At(p)) > 0}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<<<x, At(x).seq>>>> \o Listed(S \ {x})
Select == /\ Did(<<[e |-> "select", net |-> 1, key |-> -1, out |-> Listed(Chosen), cov |-> <<>>],
                   [e |-> "measure", net |-> 1, counts |-> [p \in Peers |-> Weight(At(p))]]>>)
          /\ UNCHANGED <<now, due, seen>>
Next ==
  \/ \E f \in [Peers -> 0..MaxSeq] : Find(f)
  \/ \E p \in Peers, o \in {"ok", "odd"}, g \in 0..MaxSeq, q \in 1..MaxSeq :
       \/ Due(p) /\ Check(p, At(p).seq, o, q, g)
       \/ seen[p] > 0 /\ ~At(p).known /\ Check(p, seen[p], o, q, g)
  \/ Tick
  \/ \E p \in Peers, h \in {"ok", "fail", "limited"} : Offer(p, h)
  \/ Select
Spec == Init /\ [][Next]_vars
Design == bad = {}
\* nobody falls out of the queue
Queued == \A p \in Peers : At(p).known => due[p] >= now /\ due[p] <= now + Every
=============================================================================
