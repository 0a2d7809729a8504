-------------------------------- MODULE Haul --------------------------------
(* The bridge that offers the blocks of archives.  Of each block in the      *)
(* requested range whose header, body and receipts belong together four      *)
(* items are offered: the header under its hash, when all its offers have    *)
(* ended the header under its number, and two seconds later the body and the *)
(* receipts, which can be checked only by peers that have the header.  A     *)
(* limited number of offers is under way at once; every one of them ends.    *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == <<"hash", "number", "body", "receipts">>
KindSet == {Kinds[k] : k \in DOMAIN Kinds}
Delay == 2000
PerFile == 8192

\* c: blocks with their numbers and faults, range, files first..last, limit, peers and answers
Last(c) == IF c.end > 0 THEN c.end ELSE (c.last + 1) * PerFile - 1
Wanted(c) == {b \in DOMAIN c.blocks : c.blocks[b].fault \in {"", "genuine"} /\ c.start <= c.blocks[b].n /\ c.blocks[b].n <= Last(c)}
Place(b, k) == b * 4 + (CHOOSE i \in 0..3 : Kinds[i + 1] = k)
Pick(l, i) == l[(i % Len(l)) + 1]
Chosen(c, b, k) == LET q == Pick(c.cp, Place(b, k)) IN {q[i] : i \in DOMAIN q}
Out(c, b, k, p) == LET a == Pick(c.ans, Place(b, k) * 5 + p) IN IF a \in {"ok", "declined"} THEN a ELSE "failed"
Offers(c, b, k) == {<<b, k, p>> : p \in Chosen(c, b, k)}
All(c) == UNION {Offers(c, b, k) : b \in Wanted(c), k \in KindSet}

\* active: offers under way, over: those that ended, at: when the last offer of a header ended
Start(c) == [active |-> {}, over |-> {}, at |-> [b \in DOMAIN c.blocks |-> 0]]
HeaderOver(c, m, b) == Offers(c, b, "hash") \subseteq m.over
Due(c, m, b, k, t) == CASE k = "hash" -> TRUE
                        [] k = "number" -> HeaderOver(c, m, b)
                        [] OTHER -> HeaderOver(c, m, b) /\ t >= m.at[b] + Delay
CanBegin(c, m, o, t) == /\ o \in All(c) /\ o \notin m.active \cup m.over
                        /\ Due(c, m, o[1], o[2], t) /\ Cardinality(m.active) < c.limit
Begin(m, o) == [m EXCEPT !.active = @ \cup {o}]
End(m, o, t) == [m EXCEPT !.active = @ \ {o}, !.over = @ \cup {o}, !.at = IF o[2] = "hash" /\ o[1] \in DOMAIN m.at THEN [@ EXCEPT ![o[1]] = t] ELSE @]
Finished(c, m) == m.active = {} /\ m.over = All(c)
=============================================================================
