------------------------------- MODULE Seek -------------------------------
(***************************************************************************)
(* The lookups of one node as its overlay service runs them: several        *)
(* lookups at once share the wire, the routing table and the list of        *)
(* transfers.                                                               *)
(*                                                                          *)
(* Configuration c: alpha (requests in flight), k (results wanted), tab     *)
(* (peers known at the start), old and odd (peers that speak only the       *)
(* oldest protocol version, or none that this node speaks).                 *)
(*                                                                          *)
(* Nodes and targets are the numbers 0..15; 0 is the node itself.           *)
(* A lookup knows cands, of which it has asked some; have is how those      *)
(* answered.  Content that arrived waits in line to be judged; while one    *)
(* item is on its way (at is the request that announced it) nobody else is  *)
(* asked.  A request that fails keeps its place until the peer's time is    *)
(* up, which is not reached here.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE XorN(_, _, _)
XorN(x, y, n) == IF n = 0 THEN 0
                 ELSE ((x + y) % 2) + (2 * XorN(x \div 2, y \div 2, n - 1))
DistTab == [x \in 0..15 |-> [y \in 0..15 |-> XorN(x, y, 4)]]
D(x, y) == DistTab[x][y]
Range(q) == {q[i] : i \in DOMAIN q}
Closer(L, p, q) == D(L.t, p) < D(L.t, q)
\* the n closest of ps
Nearest(L, ps, n) == {p \in ps : Cardinality({q \in ps : Closer(L, q, p)}) < n}
InOrder(L, q) == \A i, j \in DOMAIN q : i < j => Closer(L, q[i], q[j])

Nothing == [k |-> 0, q |-> "none", big |-> FALSE, n |-> 0]
Valid(L, v) == v.k = L.t /\ v.q \in {"weak", "canon"}

Open(L) == L.end = "no"
New(n, e) == [n |-> n, nodes |-> e.kind = "nodes", traced |-> e.kind = "trace", t |-> e.t,
              cands |-> {}, asked |-> {}, have |-> {}, lack |-> {}, line |-> <<>>, at |-> 0, from |-> 0, seen |-> {},
              end |-> "no", v |-> Nothing, utp |-> FALSE]
Begin(c, m, e) == LET L == New(m.n, e) IN [L EXCEPT !.cands = Nearest(L, Range(e.tab), c.k)]
Waiting(L) == L.asked \ L.have
Fresh(L) == (L.cands \ L.asked) \ {0}

\* Content in line is judged one by one; hand-overs take place where the peer speaks a common version.
RECURSIVE Judge(_, _)
Judge(c, L) ==
  IF L.at # 0 \/ L.line = <<>> \/ ~Open(L) THEN L
  ELSE LET h == L.line[1]
           r == [L EXCEPT !.line = Tail(@)]
       IN IF h.conn THEN IF h.p \in Range(c.odd) THEN Judge(c, r)
                         ELSE [r EXCEPT !.at = h.id, !.from = h.p, !.seen = L.lack]
          ELSE IF Valid(L, h.v) THEN [r EXCEPT !.end = "content", !.v = h.v, !.from = h.p, !.seen = L.lack]
          ELSE Judge(c, r)

Answer(c, L, e) ==
  IF e.how \in {"error", "garbled"} THEN L
  ELSE LET h == [L EXCEPT !.have = @ \cup {e.p}]
       IN IF e.how = "enrs" THEN [h EXCEPT !.cands = @ \cup (Range(e.rs) \ {0}), !.lack = @ \cup {e.p}]
          ELSE [h EXCEPT !.line = Append(@, [id |-> e.id, p |-> e.p, conn |-> e.how = "conn", v |-> e.v])]
Arrive(c, L, e) ==
  LET r == [L EXCEPT !.at = 0]
  IN IF e.how = "value" /\ Valid(L, e.v) THEN [r EXCEPT !.end = "content", !.v = e.v, !.utp = TRUE]
     ELSE r

(***************************************************************************)
(* The design: after every event peers are asked, the closest first, until  *)
(* enough requests are in flight, and a lookup that has nothing left to do  *)
(* ends.                                                                    *)
(***************************************************************************)
Places(c, L) == IF Cardinality(Waiting(L)) >= c.alpha THEN 0 ELSE c.alpha - Cardinality(Waiting(L))
Complete(c, L) == IF L.nodes THEN \A p \in Nearest(L, L.cands, c.k) : p \in L.have
                  ELSE L.line = <<>> /\ L.at = 0 /\ Fresh(L) = {} /\ Waiting(L) = {}
\* A lookup of nodes is done when the closest ones have all answered.
NodesDone(c, L) == LET best == Nearest(L, L.have, c.k)
                       known == L.cands \ {0}
                   IN \A p \in known \ L.have : Cardinality(best) = c.k /\ \A q \in best : Closer(L, q, p)
Asks(c, L) == IF ~Open(L) \/ L.at # 0 THEN {}
              ELSE IF L.nodes /\ NodesDone(c, L) THEN {}
              ELSE Nearest(L, Fresh(L), Places(c, L))
Settle(c, L) ==
  LET j == Judge(c, L)
      a == [j EXCEPT !.asked = @ \cup Asks(c, j)]
  IN IF ~Open(a) THEN a
     ELSE IF a.nodes THEN IF NodesDone(c, a) THEN [a EXCEPT !.end = "nodes"] ELSE a
     ELSE IF Complete(c, a) THEN [a EXCEPT !.end = "none"] ELSE a

(***************************************************************************)
(* Following the code: m.looks are the open lookups, m.reqs the requests.   *)
(***************************************************************************)
Start == [n |-> 1, looks |-> {}, reqs |-> {}, gone |-> {}, store |-> {}]
Mine(L, o) == IF o.nodes THEN L.nodes ELSE ~L.nodes /\ L.t = o.t
Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Prop(L) == IF L.nodes THEN "N02" ELSE "N03"

\* the lookup L as it should be after the event itself, before anything was asked
Touched(c, m, e, L) ==
  CASE e.e = "reply" /\ (\E r \in m.reqs : r.id = e.id /\ r.n = L.n) -> Answer(c, L, e)
    [] e.e = "stream" /\ L.at = e.id -> Arrive(c, L, e)
    [] OTHER -> L

\* places that are there even when a lookup makes no progress
Least(c) == IF c.alpha < c.k THEN c.alpha ELSE c.k
\* A lookup that has got nowhere with as many answers as it may have requests in flight goes on with more.
Most(c, L) == IF c.alpha < c.k /\ Cardinality(L.lack) >= c.alpha THEN c.k ELSE c.alpha
LookBad(c, m, e, L0) ==
  LET L == Judge(c, Touched(c, m, e, L0))
      p == Prop(L)
      new == {o \in Range(e.x.out) : Mine(L, o)}
      ps == {o.p : o \in new}
      done == {d \in Range(e.x.done) : d.nodes = L.nodes /\ d.t = L.t}
      flight == Waiting(L) \cup ps
      best == Nearest(L, L.have, c.k)
      pokes == {o.p : o \in {o \in Range(e.x.pokes) : o.t = L.t}}
  IN Clause(p, Cardinality(ps) = Cardinality(new) /\ ps \cap L.asked = {}, "a peer is asked twice")
     \cup Clause(p, ps \subseteq L.cands \cup {0}, "a peer nobody named is asked")
     \cup Clause(p, ps = {} \/ Cardinality(flight) <= Most(c, L), "too many requests in flight")
     \cup Clause(p, \A x \in ps, y \in Fresh(L) \ ps : x = 0 \/ Closer(L, x, y), "a farther peer is asked first")
     \cup Clause(p, done = {} \/ ps = {}, "peers are asked by a lookup that has ended")
     \cup Clause(p, Cardinality(done) <= 1, "a lookup ends twice")
     \cup (IF L.end = "content"
           THEN Clause(p, \E d \in done : d.res = "content" /\ d.v = L.v, "the first valid content is not the result")
                \cup Clause(p, \A d \in done : d.res = "content" => (d.utp = L.utp /\ (L.traced => d.from = L.from)),
                            "the content is not said to come from its supplier")
                \cup Clause(p, pokes \subseteq L.have \ {L.from}, "a peer that did not lack the content is told")
                \cup Clause(p, Cardinality(L.have \ {L.from}) > c.k \/ (L.seen \ m.gone) \subseteq pokes, "a peer that lacked the content is not told")
           ELSE IF L.nodes
           THEN Clause(p, \A d \in done : Range(d.ps) \subseteq L.have, "a peer that did not answer is in the result")
                \cup Clause(p, \A d \in done : InOrder(L, d.ps), "the result is not in order of distance")
                \cup Clause(p, \A d \in done : Len(d.ps) <= c.k, "the result has too many peers")
                \cup Clause(p, \A d \in done : (best \ m.gone) \subseteq Range(d.ps), "a closer peer that answered is left out")
                \cup Clause(p, done = {} \/ NodesDone(c, L), "the lookup ends though it knows closer peers")
                \cup Clause(p, done # {} \/ flight # {} \/ Fresh(L) \ ps # {}, "the lookup does not end")
                \cup Clause(p, done # {} \/ Cardinality(flight) >= Least(c) \/ Fresh(L) \ ps = {}, "the lookup stands still")
           ELSE Clause(p, \A d \in done : d.res = "none", "content that is not valid is the result")
                \cup Clause(p, done = {} \/ Complete(c, L), "the lookup ends without asking the peers it knows")
                \cup Clause(p, done # {} \/ ~Complete(c, [L EXCEPT !.asked = @ \cup ps]), "the lookup does not end")
                \cup Clause(p, done # {} \/ L.at # 0 \/ Cardinality(flight) >= Least(c) \/ Fresh(L) \ ps = {},
                            "the lookup stands still")
                \cup Clause(p, L.at = 0 \/ L.at = L0.at \/ L.at \in Range(e.x.opened), "the announced content is not fetched")
                \cup Clause(p, pokes = {}, "content that was not found is offered"))

Looks1(c, m, e) == IF e.e = "look" THEN m.looks \cup {Begin(c, m, e)} ELSE m.looks
AfterLook(c, m, e, L0) ==
  LET L == Judge(c, Touched(c, m, e, L0))
      ps == {o.p : o \in {o \in Range(e.x.out) : Mine(L, o)}}
  IN [L EXCEPT !.asked = @ \cup ps]
\* Content that is stored is found without asking anybody.
Stored(m, e) == e.e = "look" /\ e.kind # "nodes" /\ \E x \in m.store : x.t = e.t
\* A connected node that is looked for is known already.
Known(m, e) == e.e = "look" /\ e.kind = "nodes" /\ e.t \in Range(e.tab) \cup {0}
Empty(m, e) == e.e = "look" /\ e.tab = <<>>
Ended(L, e) == \E d \in Range(e.x.done) : d.nodes = L.nodes /\ d.t = L.t
Follow(c, m, e) ==
  IF e.e = "panic" THEN {[s |-> m, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE LET direct == Stored(m, e) \/ Known(m, e) \/ Empty(m, e)
           looks == IF direct THEN m.looks ELSE Looks1(c, m, e)
           next == {AfterLook(c, m, e, L) : L \in looks}
           bad == UNION {LookBad(c, m, e, L) : L \in looks}
                  \cup (IF Stored(m, e)
                        THEN Clause("N03", \E d \in Range(e.x.done) : ~d.nodes /\ d.t = e.t /\ d.res = "content"
                                                                   /\ [t |-> e.t, v |-> d.v] \in m.store,
                                    "content that is stored is not found")
                        ELSE IF direct THEN Clause(IF e.kind = "nodes" THEN "N02" ELSE "N03", e.x.done # <<>>, "the lookup does not end")
                        ELSE {})
                  \cup Clause("N02", \A o \in Range(e.x.out) : o.nodes => \E L \in looks : Mine(L, o), "a request belongs to no lookup")
                  \cup Clause("N03", \A o \in Range(e.x.out) : ~o.nodes => \E L \in looks : Mine(L, o), "a request belongs to no lookup")
                  \cup Clause("N03", e.x.stray = 0, "a transfer nobody announced is opened")
       IN {[s |-> [n |-> m.n + 1,
                   looks |-> {L \in next : ~Ended(L, e)},
                   reqs |-> {r \in m.reqs : e.e # "reply" \/ r.id # e.id}
                            \cup UNION {{[id |-> o.id, p |-> o.p, n |-> L.n] : L \in {L \in looks : Mine(L, o)}} : o \in Range(e.x.out)},
                   gone |-> IF e.e = "del" THEN m.gone \cup {e.p} ELSE m.gone,
                   store |-> IF e.e = "put" THEN {x \in m.store : x.t # e.t} \cup {[t |-> e.t, v |-> e.v]} ELSE m.store],
            bad |-> bad]}
=============================================================================
