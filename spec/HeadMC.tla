------------------------------- MODULE HeadMC -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Slots, Lens, MaxSteps, Forks
VARIABLES d, got, hist, last
H == INSTANCE Head
vars == <<d, got, hist, last>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}

Off(n) == n - 2                    \* no negative constants in configurations
Updates(tag) ==
  {[op |-> o, att |-> Off(a), fin |-> Off(f), len |-> 0, tag |-> tag, fork |-> "electra"] : o \in {"update", "finality"}, a \in Slots, f \in Slots}
  \cup {[op |-> "optimistic", att |-> Off(a), fin |-> 0, len |-> 0, tag |-> tag, fork |-> "electra"] : a \in Slots}
  \cup {[op |-> "summaries", att |-> 0, fin |-> 0, len |-> Off(n), tag |-> tag, fork |-> "electra"] : n \in Lens}

Init == d = [latest |-> <<0, 0>>, final |-> <<0, 0>>, lists |-> <<0, 0>>] /\ got = H!Start /\ hist = <<>> /\ last = d
Next == Len(hist) < MaxSteps /\ \E u \in Updates(Len(hist) + 1) :
          /\ d' = H!Step(d, u) /\ got' = H!Given(got, u) /\ hist' = Append(hist, u.op) /\ last' = d
Spec == Init /\ [][Next]_vars

\* What the trace check would see of the design.
Seen == [latest |-> d.latest, final |-> d.final, zero |-> d.lists[2], before |-> FALSE,
         sums |-> [i \in 1..Len(H!Probes) |-> IF H!Probes[i] < d.lists[1] THEN d.lists[2] ELSE -1]]
Design == H!LookOk(got, got, Seen) = {}
Forward == d.latest[1] >= last.latest[1] /\ d.final[1] >= last.final[1] /\ d.lists[1] >= last.lists[1]

----------------------------------------------------------------------------
\* Programs: single updates and bursts of updates from several threads.
Single(t) == \E o \in One({"update", "finality", "optimistic", "optimistic", "summaries"}), a, f \in One(Slots), n \in One(Lens), k \in One(Forks), r \in One(0..3) :
               hist' = Append(hist, [op |-> o, att |-> Off(a) + r * t, fin |-> Off(f) + (r * t) \div 2, len |-> Off(n), tag |-> t, fork |-> k, parts |-> <<>>])
Part(t, seed) == [i \in 1..3 |->
  LET q == (seed \div (7 * i)) + i IN
  [op |-> CASE q % 5 = 0 -> "update" [] q % 5 = 1 -> "finality" [] q % 5 = 2 -> "summaries" [] OTHER -> "optimistic",
   att |-> (q % 23) + t, fin |-> (q % 17), len |-> (q % 9) - 2, tag |-> t, fork |-> "electra"]]
Burst(t) == \E s1, s2, s3 \in One(0..100000) :
  hist' = Append(hist, [op |-> "burst", att |-> 0, fin |-> 0, len |-> 0, tag |-> t, fork |-> "electra",
                        parts |-> <<Part(20 + 3 * t, s1), Part(21 + 3 * t, s2), Part(22 + 3 * t, s3)>>])
GInit == d = 0 /\ got = 0 /\ last = 0 /\ hist = <<>>
GNext == UNCHANGED <<d, got, last>> /\ Len(hist) < MaxSteps
         /\ \E r \in One(1..5) : IF r = 1 THEN Burst(Len(hist)) ELSE Single(Len(hist) + 1)
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
