------------------------------ MODULE BeaconMC ------------------------------
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, Periods, Slots, Tags
VARIABLES v, put, saved
B == INSTANCE Beacon
vars == <<v, put, saved>>

\* Everything that can be stored, with values that fit their key or do not.
Item(kind, key, count, val, tag, fault) == [kind |-> kind, key |-> key, count |-> count, val |-> val, tag |-> tag, fork |-> "electra", fault |-> fault]
Items == {Item("boot", k, 0, i, t, f) : k \in 1..Ids, i \in 1..Ids, t \in Tags, f \in {"", "cut"}}
         \cup {Item("range", k, n, m, t, f) : k \in 0..(Periods - 1), n \in 0..2, m \in 1..2, t \in Tags, f \in {"", "cut"}}
         \cup {Item(kind, s, 0, s, t, f) : kind \in {"fin", "opt", "sum"}, s \in Slots, t \in Tags, f \in {"", "cut"}}
Keys == {[kind |-> "boot", key |-> k, count |-> 0] : k \in 1..Ids}
        \cup {[kind |-> "range", key |-> k, count |-> n] : k \in 0..Periods, n \in 1..Periods}
        \cup {[kind |-> kind, key |-> s, count |-> 0] : kind \in {"fin", "opt", "sum"}, s \in Slots}

\* `put` holds the tags given to each place, `saved` what must outlive a restart.
Place(o) == CASE o.kind = "boot" -> {<<"boot", o.val, o.tag>>}
              [] o.kind = "range" -> {<<"range", o.key + i, o.tag + i - 1>> : i \in 1..(IF o.val < o.count THEN o.val ELSE o.count)}
              [] OTHER -> {<<o.kind, o.val, o.tag>>}
Init == v = B!Empty(Ids, Periods) /\ put = {} /\ saved = v
Store(o) == /\ v' \in B!After(v, o)
            /\ put' = IF B!Readable(o) THEN put \cup Place(o) ELSE put
            /\ saved' = [v' EXCEPT !.fin = <<>>, !.opt = <<>>]
Restart == v' \in B!Restarted(v) /\ UNCHANGED <<put, saved>>
Next == (\E o \in Items : Store(o)) \/ Restart
Spec == Init /\ [][Next]_vars

Keeps == [v EXCEPT !.fin = <<>>, !.opt = <<>>] = saved
\* Whatever is served was stored for that very place, and is recent enough.
Right == \A k \in Keys : B!Has(v, k) =>
  LET a == B!Answer(v, k) IN
  CASE k.kind = "boot" -> <<"boot", k.key, a[1]>> \in put
    [] k.kind = "range" -> Len(a) = k.count /\ \A i \in 1..k.count : <<"range", k.key + i, a[i]>> \in put
    [] OTHER -> \E s \in Slots : s >= k.key /\ <<k.kind, s, a[1]>> \in put
\* What is held is not wanted, what is not held at all is.
Wanting == \A k \in Keys : /\ (B!Has(v, k) => B!Wanted(v, k) = {"stored"})
                           /\ (~B!Has(v, k) => "store" \in B!Wanted(v, k))
\* Asking for less never finds less.
Monotone == \A k \in Keys : k.kind \in {"fin", "opt", "sum"} /\ B!Has(v, k) => \A s \in Slots : s <= k.key => B!Has(v, [k EXCEPT !.key = s])
=============================================================================
