------------------------------- MODULE SeekMC -------------------------------
(***************************************************************************)
(* A node that follows the design, with peers that answer as they like and  *)
(* lookups that run side by side: the design keeps every clause, and an     *)
(* open lookup always waits for somebody.                                   *)
(***************************************************************************)
EXTENDS Seek, TLC

CONSTANTS Peers, First, Odd, Alpha, Want, MaxLooks, Kinds
VARIABLES m, tab, bad

C == [alpha |-> Alpha, k |-> Want, tab |-> <<>>, old |-> <<>>, odd |-> IF Odd = 0 THEN <<>> ELSE <<Odd>>]

RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ListOf(S \ {x})
RECURSIVE Sorted(_, _)
Sorted(L, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : z = y \/ Closer(L, y, z)
                                         IN <<x>> \o Sorted(L, S \ {x})

\* What the design does with an event.
Ids == {0} \cup {r.id : r \in m.reqs} \cup {L.at : L \in m.looks} \cup UNION {{h.id : h \in Range(L.line)} : L \in m.looks}
NextId == 1 + (CHOOSE i \in Ids : \A j \in Ids : j <= i)
Done(L) == [nodes |-> L.nodes, t |-> L.t, res |-> L.end, v |-> L.v, utp |-> L.utp,
            from |-> IF L.traced /\ L.end = "content" THEN L.from ELSE 99,
            ps |-> IF L.nodes THEN Sorted(L, Nearest(L, L.have, C.k)) ELSE <<>>]
Plan(e) ==
  LET direct == Stored(m, e) \/ Known(m, e) \/ Empty(m, e)
      looks == IF direct THEN m.looks ELSE Looks1(C, m, e)
      after(L) == Settle(C, Touched(C, m, e, L))
      pairs == UNION {{<<L.nodes, L.t, p>> : p \in after(L).asked \ L.asked} : L \in looks}
      list == ListOf(pairs)
      at == {after(L).at : L \in looks} \ ({L.at : L \in looks} \cup {0})
  IN [out |-> [i \in 1..Len(list) |-> [id |-> NextId + i - 1, nodes |-> list[i][1], t |-> list[i][2], p |-> list[i][3]]],
      done |-> ListOf({Done(after(L)) : L \in {L \in looks : ~Open(after(L))}}
                      \cup (IF direct THEN {[nodes |-> e.kind = "nodes", t |-> e.t, res |-> "none", v |-> Nothing, utp |-> FALSE,
                                             from |-> 99, ps |-> <<>>]} ELSE {})),
      opened |-> ListOf(at),
      pokes |-> ListOf(UNION {{[p |-> p, t |-> L.t] : p \in after(L).seen} : L \in {L \in looks : after(L).end = "content"}}),
      stray |-> 0]
Step(e0) ==
  LET e == [e0 EXCEPT !.x = Plan(e0)]
      o == CHOOSE o \in Follow(C, m, e) : TRUE
  IN /\ m' = [o.s EXCEPT !.n = IF m.n > MaxLooks THEN m.n ELSE IF e.e = "look" THEN m.n + 1 ELSE m.n,
                         !.looks = {L \in o.s.looks : TRUE}]
     /\ bad' = o.bad

Target(k) == IF k = "nodes" THEN 7 ELSE 5
V(q, n) == [k |-> 5, q |-> q, big |-> FALSE, n |-> n]

Init == m = Start /\ tab = First /\ bad = {}
Look == \E k \in Kinds :
          /\ m.n <= MaxLooks
          /\ \A L \in m.looks : L.nodes # (k = "nodes")
          /\ Step([e |-> "look", kind |-> k, t |-> Target(k), tab |-> ListOf(tab), x |-> 0])
          /\ tab' = tab
Of(r) == CHOOSE L \in m.looks : L.n = r.n
Reply == \E r \in m.reqs :
           \/ \E rs \in SUBSET Peers :
                /\ Cardinality(rs) <= 2
                /\ Step([e |-> "reply", id |-> r.id, p |-> r.p, how |-> "enrs", rs |-> ListOf(rs), v |-> Nothing, x |-> 0])
                /\ tab' = tab \cup {r.p}
           \/ /\ \E L \in m.looks : L.n = r.n /\ ~L.nodes
              /\ \/ \E q \in {"bad", "weak"} :
                      Step([e |-> "reply", id |-> r.id, p |-> r.p, how |-> "content", rs |-> <<>>, v |-> V(q, r.p), x |-> 0])
                 \/ Step([e |-> "reply", id |-> r.id, p |-> r.p, how |-> "conn", rs |-> <<>>, v |-> Nothing, x |-> 0])
              /\ tab' = tab \cup {r.p}
Stream == \E L \in m.looks :
            /\ L.at # 0
            /\ \/ \E q \in {"bad", "weak"} : Step([e |-> "stream", id |-> L.at, how |-> "value", v |-> V(q, L.at), x |-> 0])
               \/ Step([e |-> "stream", id |-> L.at, how |-> "broken", v |-> Nothing, x |-> 0])
            /\ tab' = tab
Next == Look \/ Reply \/ Stream
Spec == Init /\ [][Next]_<<m, tab, bad>>

Keeps == bad = {}
Waits == \A L \in m.looks : Waiting(L) # {} \/ L.at # 0
InFlight == \A L \in m.looks : Cardinality(Waiting(L)) <= C.alpha
Tidy == \A L \in m.looks : L.have \subseteq L.asked /\ L.asked \subseteq L.cands /\ L.lack \subseteq L.have
=============================================================================
