------------------------------ MODULE WantsMC ------------------------------
(* A store of items of one size that drops the farthest ones, against the clauses. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, MaxCap, MaxSteps
VARIABLES kept, r, cap, most, bad, n
W == INSTANCE Wants
vars == <<kept, r, cap, most, bad, n>>
Top(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Fit(_, _)
Fit(S, c) == IF Cardinality(S) <= c THEN S ELSE Fit(S \ {Top(S)}, c)
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE <<Top(S)>> \o List(S \ {Top(S)})
Said(k, rad) == [i \in Keys |-> IF i > rad THEN "far" ELSE IF i \in k THEN "have" ELSE "store"]
View(k, rad) == [near |-> List(1..rad), kept |-> List(k), want |-> Said(k, rad), batch |-> Said(k, rad),
                 other |-> <<>>, pages |-> List(k), total |-> <<Cardinality(k)>>]
Did(k, rad, e) == /\ kept' = k /\ r' = rad /\ n' = n + 1
                  /\ bad' = W!Clauses([net |-> "history"], [near |-> 1..r, kept |-> kept], e @@ View(k, rad))
Min(a, b) == IF a < b THEN a ELSE b
Put(k) == LET ok == k <= r
              all == IF ok THEN kept \cup {k} ELSE kept
              rest == Fit(all, cap)
          IN Did(rest, IF rest = all THEN r ELSE Min(most, Top(rest)), [e |-> "put", k |-> k, ok |-> ok, ret |-> List(all \ rest), odd |-> <<>>]) /\ UNCHANGED <<cap, most>>
Open(c, m) == LET rest == Fit(kept, c)
              IN /\ Did(rest, IF c = 0 THEN 0 ELSE IF Cardinality(rest) < c THEN m ELSE Min(m, Top(rest)), [e |-> "open", cap |-> c, max |-> m])
                 /\ cap' = c /\ most' = m
Init == kept = {} /\ cap \in 0..MaxCap /\ most \in 0..Cardinality(Keys) /\ r = (IF cap = 0 THEN 0 ELSE most) /\ bad = {} /\ n = 0
Next == n < MaxSteps /\ (\/ \E k \in Keys : Put(k)
                         \/ \E c \in 0..MaxCap, m \in 0..Cardinality(Keys) : Open(c, m))
Spec == Init /\ [][Next]_vars
Design == bad = {}
Fits == Cardinality(kept) <= cap
=============================================================================
