------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* One recursive lookup, for nodes (kind "node") or content ("content").    *)
(*                                                                          *)
(* Peers are named by their rank: 1 is the closest to the target.  c holds  *)
(* par (parallelism), num (results wanted), ttl (peer timeout), kind.       *)
(* A lookup q is a record                                                   *)
(*   st    peer -> "new", "wait", "late", "fail", "ok"   (known peers)      *)
(*   dl    peer -> time at which it counts as late                          *)
(*   np    consecutive answers without progress;  stalled                   *)
(*   fin   finished            now   the clock                              *)
(*   todo  peers whose content waits for validation    val  peer validated  *)
(*   chan  verdicts not yet seen by the lookup         win  peer of result  *)
(*   had   peers that returned content     tried  peers offered so far      *)
(*                                                                          *)
(* First the design (Poll is the algorithm), then the properties N02 and    *)
(* N03 as clauses over what is observable.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Known(q) == DOMAIN q.st
In(q, x) == {p \in Known(q) : q.st[p] = x}
Waiting(q) == In(q, "wait")

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o Sorted(S \ {SetMin(S)})
FirstN(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
Range(s) == {s[i] : i \in 1..Len(s)}

NewQuery(c, known) ==
  LET k == Range(FirstN(known, c.num)) IN
  [st |-> [p \in k |-> "new"], dl |-> [p \in k |-> 0], np |-> 0, stalled |-> FALSE, fin |-> FALSE,
   now |-> 0, todo |-> <<>>, val |-> 0, chan |-> <<>>, win |-> 0, had |-> {}, tried |-> {}]

Limit(c, q) == IF q.stalled THEN c.num ELSE c.par

-----------------------------------------------------------------------------
(* Answers *)

Learn(q, peers) ==
  LET k == Known(q) \cup Range(peers) IN
  [q EXCEPT !.st = [p \in k |-> IF p \in Known(q) THEN q.st[p] ELSE "new"],
            !.dl = [p \in k |-> IF p \in Known(q) THEN q.dl[p] ELSE 0]]

\* An answer made progress when the last peer it names is the closest one known, or when
\* too few peers were known before.
Progress(c, q, peers) ==
  LET q2 == Learn(q, peers) IN
  /\ peers # <<>>
  /\ \/ peers[Len(peers)] = SetMin(Known(q2))
     \/ Cardinality(Known(q)) < c.num

Accepts(q, p) == ~q.fin /\ p \in Known(q) /\ q.st[p] \in {"wait", "late"}

Succeed(c, q, p, peers) ==
  IF ~Accepts(q, p) THEN q
  ELSE LET a  == [q EXCEPT !.st[p] = "ok"]
           pr == Progress(c, a, peers)
           b  == Learn(a, peers)
       IN IF b.stalled THEN (IF pr THEN [b EXCEPT !.stalled = FALSE, !.np = 0] ELSE b)
          ELSE LET n == IF pr THEN 0 ELSE b.np + 1
               IN [b EXCEPT !.np = n, !.stalled = (n >= c.par)]

Content(c, q, p) ==
  IF ~Accepts(q, p) THEN q
  ELSE [q EXCEPT !.st[p] = "ok", !.todo = Append(@, p), !.had = @ \cup {p}]

Fail(q, p) == IF Accepts(q, p) THEN [q EXCEPT !.st[p] = "fail"] ELSE q

Verdict(q, p, ok) == [q EXCEPT !.chan = Append(@, <<p, ok>>)]

-----------------------------------------------------------------------------
(* The algorithm of one poll; the outcome is [q, out, p]                    *)

Out(q, o, p) == [q |-> q, out |-> o, p |-> p]

RECURSIVE Scan(_, _, _, _, _)
Scan(c, q, ranks, cnt, cap) ==      \* cnt: results so far, -1 once a closer peer is waited for
  IF ranks = <<>>
  THEN IF Waiting(q) # {} THEN Out(q, "wait", 0) ELSE Out([q EXCEPT !.fin = TRUE], "finished", 0)
  ELSE LET p == Head(ranks) IN
    CASE q.st[p] = "new" ->
           IF cap THEN Out(q, "capacity", 0)
           ELSE Out([q EXCEPT !.st[p] = "wait", !.dl[p] = q.now + c.ttl], "contact", p)
      [] q.st[p] = "wait" ->
           IF cap THEN Out(q, "capacity", 0)
           ELSE Scan(c, q, Tail(ranks), -1, cap)
      [] q.st[p] = "ok" ->
           IF c.kind = "node" /\ cnt >= 0 /\ cnt + 1 >= c.num
           THEN Out([q EXCEPT !.fin = TRUE], "finished", 0)
           ELSE Scan(c, q, Tail(ranks), IF cnt < 0 THEN cnt ELSE cnt + 1, cap)
      [] OTHER -> Scan(c, q, Tail(ranks), cnt, cap)

\* Requests that are late give up their place first.  (Without this step a lookup whose waiting
\* peers are all farther than a peer not yet contacted is stuck for good; see Terminates.)
Expire(q) == [q EXCEPT !.st = [p \in Known(q) |-> IF q.st[p] = "wait" /\ q.now >= q.dl[p] THEN "late" ELSE q.st[p]]]

Search(c, q0) == LET q == Expire(q0) IN
                 Scan(c, q, Sorted(Known(q)), 0, Cardinality(Waiting(q)) >= Limit(c, q))

Poll(c, q0) ==
  IF q0.fin THEN Out(q0, "finished", 0)
  ELSE IF q0.chan # <<>> /\ Head(q0.chan)[2]
  THEN Out([q0 EXCEPT !.fin = TRUE, !.win = Head(q0.chan)[1], !.chan = Tail(q0.chan)], "finished", 0)
  ELSE LET q == IF q0.chan = <<>> THEN q0
                ELSE [q0 EXCEPT !.val = 0, !.chan = Tail(q0.chan)]
       IN IF q.val # 0 THEN Out(q, "capacity", 0)
          ELSE IF q.todo # <<>>
          THEN Out([q EXCEPT !.val = Head(q.todo), !.todo = Tail(q.todo), !.tried = @ \cup {Head(q.todo)}],
                   "validate", Head(q.todo))
          ELSE Search(c, q)

\* Left alone (nobody answers, validations fail) the lookup comes to an end within n rounds.
RECURSIVE Ends(_, _, _)
Ends(c, q, n) ==
  \/ q.fin
  \/ /\ n > 0
     /\ LET a == IF q.val # 0 /\ q.chan = <<>> THEN Verdict(q, q.val, FALSE) ELSE q
        IN Ends(c, Poll(c, [a EXCEPT !.now = @ + c.ttl]).q, n - 1)

Result(c, q) == IF c.kind = "node" THEN FirstN(Sorted(In(q, "ok")), c.num)
                ELSE IF q.win = 0 THEN <<>> ELSE <<q.win>>

-----------------------------------------------------------------------------
(* Properties.  m is what an observer knows: a lookup as above in which     *)
(* Poll's effects are only those that were reported.  "In flight" are the   *)
(* requests that are neither answered nor late.                             *)

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

InFlight(m) == {r \in Waiting(m) : m.now < m.dl[r]}
Id(c) == IF c.kind = "node" THEN "N02" ELSE "N03"

\* A poll reported (out, p); m is the observer before it.
PollOk(c, m, out, p) ==
  Clause(Id(c), (~m.fin /\ m.chan # <<>> /\ Head(m.chan)[2]) => out = "finished",
         "goes on although valid content was found")
  \cup
  CASE out = "contact" ->
         Clause(Id(c), p \in Known(m), "a peer nobody named is contacted")
         \cup Clause(Id(c), p \in Known(m) => m.st[p] = "new", "a peer is contacted twice")
         \cup Clause(Id(c), p \in Known(m) => \A r \in In(m, "new") : p <= r,
                     "a farther peer is contacted before a closer one")
         \cup Clause(Id(c), Cardinality(InFlight(m)) < Limit(c, m), "too many requests in flight")
         \cup Clause(Id(c), ~m.fin, "contact after the end")
         \cup Clause(Id(c), c.kind = "node" \/ m.val = 0 \/ m.chan # <<>>,
                     "contact during a validation")
    [] out \in {"wait", "capacity"} ->
         Clause(Id(c), ~m.fin, "a finished lookup goes on")
         \cup Clause(Id(c), Waiting(m) # {} \/ m.val # 0 \/ m.chan # <<>>, "waits although nothing is outstanding")
    [] out = "validate" ->
         Clause(Id(c), c.kind = "content" /\ p \in m.had, "validation of a peer without content")
         \cup Clause(Id(c), p \notin m.tried, "content validated twice")
         \cup Clause(Id(c), m.val = 0 \/ m.chan # <<>>, "two validations at once")
         \cup Clause(Id(c), ~m.fin, "validation after the end")
    [] out = "finished" ->
         IF m.fin THEN {}
         ELSE IF c.kind = "node"
         THEN LET res  == FirstN(Sorted(In(m, "ok")), c.num)
                  full == Len(res) >= c.num
                  upto == IF full THEN {r \in Known(m) : r < res[Len(res)]} ELSE Known(m)
              IN Clause("N02", In(m, "new") \cap upto = {}, "ends with a closer peer not contacted")
                 \cup Clause("N02", InFlight(m) \cap upto = {}, "ends while a closer peer may still answer")
         ELSE IF m.chan # <<>> /\ Head(m.chan)[2] THEN {}
         ELSE Clause("N03", In(m, "new") = {}, "ends empty-handed with a peer not contacted")
              \cup Clause("N03", InFlight(m) = {}, "ends empty-handed while a peer may still answer")
              \cup Clause("N03", m.had \subseteq m.tried, "ends empty-handed with content not validated")
              \cup Clause("N03", m.val = 0 \/ (m.chan # <<>> /\ ~Head(m.chan)[2]),
                          "ends during a validation")
    [] OTHER -> {<<Id(c), "unknown outcome of a poll">>}

\* The observer after the poll.
Observe(c, m, out, p) ==
  LET seen == IF m.chan = <<>> \/ m.fin THEN m
              ELSE IF Head(m.chan)[2]
              THEN IF out = "finished" THEN [m EXCEPT !.win = Head(m.chan)[1], !.chan = Tail(m.chan)] ELSE m
              ELSE [m EXCEPT !.val = 0, !.chan = Tail(m.chan)]
  IN CASE out = "contact" /\ p \in Known(m) -> [seen EXCEPT !.st[p] = "wait", !.dl[p] = m.now + c.ttl]
       [] out = "validate" -> [seen EXCEPT !.val = p, !.tried = @ \cup {p},
                                           !.todo = SelectSeq(@, LAMBDA x : x # p)]
       [] out = "finished" -> [seen EXCEPT !.fin = TRUE]
       [] OTHER -> seen

\* The final result: peers, or for content [peer, cancelled].
ResultOk(c, m, res, cancelled) ==
  IF c.kind = "node"
  THEN Clause("N02", m.fin => res = Result(c, m), "the result is not the closest peers that answered")
  ELSE Clause("N03", m.fin => res = Result(c, m), "the result is not the first content that validated")
       \cup Clause("N03", (m.fin /\ m.win # 0) =>
                            /\ InFlight(m) \ {m.win} \subseteq Range(cancelled)
                            /\ Range(cancelled) \subseteq Waiting(m) \ {m.win},
                   "the peers reported as abandoned are not the ones waited for")

\* What a validation is started with: the content's peer and the peers to tell about it.
PokeOk(c, m, p, poke) ==
  Clause("N03", Range(poke) \subseteq In(m, "ok") \ {p}, "a peer is poked that did not answer")
  \cup Clause("N03", Len(poke) <= c.num /\ Cardinality(Range(poke)) = Len(poke), "too many peers poked")
  \cup Clause("N03", LET lacked == In(m, "ok") \ m.had IN
                     Cardinality(In(m, "ok") \ {p}) <= c.num => lacked \subseteq Range(poke),
              "a peer that lacked the content is left out")
=============================================================================
