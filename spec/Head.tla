-------------------------------- MODULE Head --------------------------------
(***************************************************************************)
(* The chain head that the node follows: the newest header it received, the *)
(* newest finalized header and the longest list of historical summaries.    *)
(* Slots are counted from the slot the node starts with, tags tell apart    *)
(* headers and lists received at different times (0: built in).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Max2(a, b) == IF a < b THEN b ELSE a
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

Start == [latest |-> {<<0, 0>>}, final |-> {<<0, 0>>}, lists |-> {<<0, 0>>}]   \* everything received: <<slot or length, tag>>

\* What one update adds.
Given(h, u) ==
  CASE u.op = "summaries" -> [h EXCEPT !.lists = @ \cup {<<u.len, u.tag>>}]
    [] u.op = "optimistic" -> [h EXCEPT !.latest = @ \cup {<<u.att, u.tag>>}]
    [] OTHER -> [h EXCEPT !.latest = @ \cup {<<u.att, u.tag>>}, !.final = @ \cup {<<u.fin, u.tag>>}]
RECURSIVE GivenAll(_, _)
GivenAll(h, us) == IF us = <<>> THEN h ELSE GivenAll(Given(h, Head(us)), Tail(us))

Newest(S) == SetMax({x[1] : x \in S})

\* The design: strictly newer replaces.
Step(d, u) ==
  LET newer(old, slot) == IF old[1] < slot THEN <<slot, u.tag>> ELSE old IN
  CASE u.op = "summaries" -> [d EXCEPT !.lists = newer(@, u.len)]
    [] u.op = "optimistic" -> [d EXCEPT !.latest = newer(@, u.att)]
    [] OTHER -> [d EXCEPT !.latest = newer(@, u.att), !.final = newer(@, u.fin)]

Probes == <<-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6>>     \* periods looked at, counted from the end of the built-in list

\* One look at the head: b is what had certainly arrived, a what may have arrived.
LookOk(b, a, v) ==
  Clause("V01", v.latest \in a.latest, "the latest header was never received")
  \cup Clause("V01", v.final \in a.final, "the finalized header was never received")
  \cup Clause("V01", v.latest[1] >= Newest(b.latest), "the latest header is older than one received before")
  \cup Clause("V01", v.final[1] >= Newest(b.final), "the finalized header is older than one received before")
  \cup Clause("V01", \A i \in 1..Len(Probes) : v.sums[i] = -1 \/ (\E l \in a.lists : l[2] = v.sums[i] /\ Probes[i] < l[1]),
              "a historical summary is not that of its period in a received list")
  \cup Clause("V01", \A i \in 1..Len(Probes) : Probes[i] < Newest(b.lists) => v.sums[i] # -1,
              "a historical summary that was known is no longer known")
  \cup Clause("V01", v.zero \in {l[2] : l \in a.lists}, "the first historical summary is not known")
  \cup Clause("V01", ~v.before, "a summary is given for a slot before the first period")

RECURSIVE LooksOk(_, _, _, _)
LooksOk(b, a, vs, i) ==
  IF i > Len(vs) THEN {}
  ELSE LookOk(IF i = Len(vs) THEN a ELSE b, a, vs[i])
       \cup (IF i = 1 THEN {}
             ELSE Clause("V01", vs[i].latest[1] >= vs[i - 1].latest[1], "the latest header moved backwards")
                  \cup Clause("V01", vs[i].final[1] >= vs[i - 1].final[1], "the finalized header moved backwards"))
       \cup LooksOk(b, a, vs, i + 1)
=============================================================================
