------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The byte level that keys and messages share.  A byte string is a         *)
(* sequence of numbers below 256; a number is given as its bytes, lowest    *)
(* first.  A container is laid out as its fields in order: one of known     *)
(* size as it is, any other one as its place, the fields themselves         *)
(* following at the end.  A list whose items vary in size starts with the   *)
(* places of all its items.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Only(S) == CHOOSE x \in S : TRUE

Place(n) == <<n % 256, (n \div 256) % 256, n \div 65536, 0>>
Far == 9999999          \* stands for every place beyond what occurs here
PlaceOf(b) == IF b[4] > 0 \/ b[3] > 63 THEN Far ELSE b[1] + 256 * b[2] + 65536 * b[3]

\* A layout: the size of each field, 0 for one that varies.
Step(n) == IF n = 0 THEN 4 ELSE n
RECURSIVE Lead(_)
Lead(l) == IF l = <<>> THEN 0 ELSE Step(l[1]) + Lead(Tail(l))
RECURSIVE Rest(_, _)
Rest(l, vals) == IF l = <<>> THEN <<>>
                 ELSE (IF l[1] = 0 THEN vals[1] ELSE <<>>) \o Rest(Tail(l), Tail(vals))
RECURSIVE Front(_, _, _)
Front(l, vals, at) == IF l = <<>> THEN <<>>
                      ELSE IF l[1] = 0 THEN Place(at) \o Front(Tail(l), Tail(vals), at + Len(vals[1]))
                      ELSE vals[1] \o Front(Tail(l), Tail(vals), at)
Pack(l, vals) == Front(l, vals, Lead(l)) \o Rest(l, vals)

RECURSIVE Places(_, _, _)
Places(l, b, at) == IF l = <<>> THEN <<>>
                    ELSE (IF l[1] = 0 THEN <<PlaceOf(SubSeq(b, at, at + 3))>> ELSE <<>>)
                         \o Places(Tail(l), b, at + Step(l[1]))
Orderly(ps, first, size) ==
  /\ ps # <<>> => ps[1] = first
  /\ \A i \in 1..Len(ps) : ps[i] <= size /\ (i > 1 => ps[i - 1] <= ps[i])
Part(b, ps, i) == SubSeq(b, ps[i] + 1, IF i = Len(ps) THEN Len(b) ELSE ps[i + 1])
RECURSIVE Fields(_, _, _, _, _)
Fields(l, b, ps, at, i) == IF l = <<>> THEN <<>>
                           ELSE IF l[1] = 0 THEN <<Part(b, ps, i)>> \o Fields(Tail(l), b, ps, at + 4, i + 1)
                           ELSE <<SubSeq(b, at, at + l[1] - 1)>> \o Fields(Tail(l), b, ps, at + l[1], i)
\* What b holds: one sequence of fields, or nothing.
Unpack(l, b) ==
  IF Len(b) < Lead(l) THEN {}
  ELSE LET ps == Places(l, b, 1) IN
       IF ~Orderly(ps, Lead(l), Len(b)) \/ (ps = <<>> /\ Len(b) # Lead(l)) THEN {}
       ELSE {Fields(l, b, ps, 1, 1)}

RECURSIVE Glue(_)
Glue(items) == IF items = <<>> THEN <<>> ELSE items[1] \o Glue(Tail(items))
RECURSIVE PackAt(_, _)
PackAt(items, at) == IF items = <<>> THEN <<>> ELSE Place(at) \o PackAt(Tail(items), at + Len(items[1]))
PackList(items) == PackAt(items, 4 * Len(items)) \o Glue(items)
UnpackList(b) ==
  IF b = <<>> THEN {<<>>}
  ELSE IF Len(b) < 4 THEN {}
  ELSE LET first == PlaceOf(SubSeq(b, 1, 4))
           n == first \div 4
       IN IF first = 0 \/ first % 4 # 0 \/ first > Len(b) THEN {}
          ELSE LET ps == [i \in 1..n |-> PlaceOf(SubSeq(b, 4 * i - 3, 4 * i))] IN
               IF ~Orderly(ps, first, Len(b)) THEN {}
               ELSE {[i \in 1..n |-> Part(b, ps, i)]}

\* Items of n bytes each.
Even(b, n) == IF Len(b) % n # 0 THEN {} ELSE {[i \in 1..(Len(b) \div n) |-> SubSeq(b, n * (i - 1) + 1, n * i)]}
=============================================================================
