------------------------------ MODULE QueryMC ------------------------------
(* Every history of answers, failures, timeouts and verdicts of one lookup;  *)
(* the observer m runs alongside the design and evaluates the clauses.       *)
EXTENDS Query, Json, IOUtils

CONSTANTS Peers,         \* ranks
          Starts,        \* initial peer lists
          Pars, Nums, Ttl, MaxNow, Kinds,
          MaxNames,      \* peers named in one answer
          Record, Depth

VARIABLES c, q, m, bad, hist
vars == <<c, q, m, bad, hist>>

Lists == UNION {[1..n -> Peers] : n \in 0..MaxNames}
Log(op) == hist' = IF Record THEN Append(hist, op) ELSE hist

Init == /\ \E k \in Kinds, p \in Pars, n \in Nums : c = [kind |-> k, par |-> p, num |-> n, ttl |-> Ttl]
        /\ \E s \in Starts : /\ q = NewQuery(c, s) /\ m = q
                             /\ hist = IF Record THEN <<[op |-> "init", c |-> c, start |-> s]>> ELSE <<>>
        /\ bad = {}

DoPoll == LET o == Poll(c, q) IN
          /\ ~q.fin
          /\ q' = o.q
          /\ m' = Observe(c, m, o.out, o.p)
          /\ bad' = PollOk(c, m, o.out, o.p)
                    \cup (IF o.out = "finished" THEN ResultOk(c, m', Result(c, o.q), Sorted(Waiting(o.q) \ {o.q.win})) ELSE {})
          /\ Log([op |-> "poll"]) /\ c' = c

\* Answers may come from anyone, also from peers that were never asked.
DoSucceed == \E p \in Peers, names \in Lists :
               /\ q' = Succeed(c, q, p, names) /\ m' = Succeed(c, m, p, names)
               /\ bad' = {} /\ Log([op |-> "nodes", p |-> p, names |-> names]) /\ c' = c
DoContent == \E p \in Peers :
               /\ c.kind = "content"
               /\ q' = Content(c, q, p) /\ m' = Content(c, m, p)
               /\ bad' = {} /\ Log([op |-> "content", p |-> p]) /\ c' = c
DoFail == \E p \in Peers : /\ q' = Fail(q, p) /\ m' = Fail(m, p)
                           /\ bad' = {} /\ Log([op |-> "fail", p |-> p]) /\ c' = c
DoVerdict == \E ok \in BOOLEAN :
               /\ q.val # 0 /\ q.chan = <<>>
               /\ q' = Verdict(q, q.val, ok) /\ m' = Verdict(m, q.val, ok)
               /\ bad' = {} /\ Log([op |-> "verdict", ok |-> ok]) /\ c' = c
Tick == /\ q.now < MaxNow
        /\ q' = [q EXCEPT !.now = @ + 1] /\ m' = [m EXCEPT !.now = @ + 1]
        /\ bad' = {} /\ Log([op |-> "tick"]) /\ c' = c

Next == ~q.fin /\ (DoPoll \/ DoSucceed \/ DoContent \/ DoFail \/ DoVerdict \/ Tick)
\* For longer programs: mostly answers that count, sometimes answers of peers that were not asked.
Some(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Open == Waiting(q) \cup In(q, "late")
GenAnswer == \E p \in Some(Open) \cup Some(Peers), names \in {RandomElement(Lists)} :
               /\ p \in Open \/ RandomElement(1..8) = 1
               /\ q' = Succeed(c, q, p, names) /\ m' = Succeed(c, m, p, names)
               /\ bad' = {} /\ Log([op |-> "nodes", p |-> p, names |-> names]) /\ c' = c
GenNext == ~q.fin /\ (DoPoll \/ DoPoll \/ GenAnswer \/ GenAnswer \/ DoVerdict \/ Tick \/ (DoContent /\ q' # q /\ RandomElement(1..4) = 1)
                      \/ (DoFail /\ (q' # q \/ RandomElement(1..20) = 1)))
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

Holds == bad = {}
\* Whatever happened, the lookup ends if from now on nobody answers.
Terminates == Ends(c, q, 4 * Cardinality(Peers) + 4)
Once == q.tried \subseteq q.had

MCStarts == {<<>>, <<2>>, <<1, 3>>}
DeepStarts == {<<1, 4>>, <<3>>}
GenStarts == {<<4>>, <<3, 5, 8>>, <<1, 2, 6, 7>>, <<9, 10, 11, 12>>}

Emit == \/ (Len(hist) < Depth /\ ~q.fin)
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
