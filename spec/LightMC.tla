------------------------------- MODULE LightMC -------------------------------
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N, Periods, Bits
VARIABLES d, last, c
L == INSTANCE Light
vars == <<d, last, c>>

\* The committee that is really in charge of a period, and one that never is.
Com(p) == p + 1
Liar == 9
Slots == 0..(P * Periods - 1)
Now == P * Periods - 2

\* Updates that can exist.  Honest ones tell the truth (tag 1).  Forged ones (tag 2) carry a fault,
\* or are signed by the wrong committee, or by fewer members than two thirds of the right one.
Up(k, a, g, f, t, n, b, w, x) == [kind |-> k, att |-> a, sig |-> g, fin |-> f, tag |-> t, next |-> n, bits |-> b, signer |-> w, fault |-> x]
Pairs == {<<a, f>> \in Slots \X Slots : f <= a + 1}
Honest == {Up(k, q[1], q[1] + g, q[2], 1, Com(L!Period(q[1]) + 1), b, Com(L!Period(q[1] + g)), "") :
             k \in {"update", "finality", "optimistic"}, q \in {r \in Pairs : r[2] <= r[1]}, g \in {1, 2}, b \in Bits}
Forged == {Up(k, q[1], q[1] + g, q[2], 2, Liar, b, w, x) :
             k \in {"update", "finality", "optimistic"}, q \in Pairs, g \in {0, 1}, b \in Bits,
             w \in {Liar} \cup {Com(i) : i \in 0..(Periods - 1)}, x \in {"", "sig", "finproof"}}
Possible(u) == u.tag = 1 \/ u.fault = "sig" \/ u.signer # Com(L!Period(u.sig)) \/ ~L!Enough(u)
All == Honest \cup {u \in Forged : Possible(u)}

Init == /\ \E s \in 0..Now : c = [slot |-> s, cur |-> Com(L!Period(s)), strict |-> 0, limit |-> 0]
        /\ d = L!Boot(c, L!Nobody) /\ last = d
Next == /\ \E u \in All : d' = L!Step(d, u, Now)
        /\ last' = d /\ UNCHANGED c
Spoke == d.tell # last.tell
Spec == Init /\ [][Next]_vars
Bare(x) == [x EXCEPT !.tell = L!Silent]
View == <<Bare(d), Bare(last), Spoke>>

\* What the properties promise.
FinalTrue == d.fin[2] \in {0, L!FinTag(1)}
CommitteesTrue == d.cur = Com(L!Period(d.fin[1])) /\ d.next \in {0, Com(L!Period(d.fin[1]) + 1)}
Forward == d.fin[1] >= last.fin[1] /\ d.opt[1] >= last.opt[1] /\ d.opt[1] >= d.fin[1]
Rotation == d.cur # last.cur => d.cur = last.next /\ L!Period(d.fin[1]) = L!Period(last.fin[1]) + 1
Threshold == d.opt # last.opt /\ d.fin = last.fin => 2 * d.cmax >= L!Max(last.cmax, last.pmax)
\* Nothing moves unheard, and what is known of a committee is always asked for when it is missing.
Heard == (d.fin # last.fin \/ d.opt # last.opt) => d.tell # L!Silent
Asked == (L!Wanted(d) < 0) = (d.next > 0) /\ L!Wanted(d) \in {-1, L!Period(d.fin[1])}
NotAhead == d.fin[1] <= Now /\ d.opt[1] <= Now

=============================================================================
