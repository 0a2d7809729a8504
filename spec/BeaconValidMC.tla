---------------------------- MODULE BeaconValidMC ----------------------------
(* Every item with every key, against every knowledge of the chain.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N, Limit, Periods
VARIABLES o, cfg, now
B == INSTANCE BeaconValid
L == INSTANCE Light
Slots == 0..(P * Periods - 1)
Com(p) == p + 1
Item(kind, known) == [kind |-> kind, known |-> known, broken |-> "", us |-> <<>>, at |-> 0, start |-> 0, count |-> 0, key |-> "", fault |-> "", head |-> "", age |-> 0]
Ups(kind) == {[kind |-> kind, att |-> a, sig |-> g, fin |-> f, tag |-> 1, next |-> Com(L!Period(a) + 1), bits |-> N, signer |-> w, fault |-> x, fork |-> fk] :
               a \in Slots, g \in Slots, f \in {0, 1, P}, w \in {1, 2}, x \in {"", "sig", "finproof"}, fk \in {"electra", "deneb"}}
Items ==
  {[Item("boot", k) EXCEPT !.age = a, !.head = h, !.key = y] : k \in BOOLEAN, a \in (Limit - 1)..(Limit + 1), h \in {"same", "other"}, y \in {"own", "other"}}
  \cup {[Item("fin", k) EXCEPT !.us = <<u>>, !.at = s] : k \in BOOLEAN, u \in Ups("finality"), s \in Slots}
  \cup {[Item("opt", k) EXCEPT !.us = <<u>>, !.at = s] : k \in BOOLEAN, u \in Ups("optimistic"), s \in Slots}
  \cup {[Item("range", k) EXCEPT !.us = us, !.start = s, !.count = n] : k \in BOOLEAN, us \in {<<u>> : u \in Ups("update")}, s \in 0..(Periods - 1), n \in 0..2}
  \cup {[Item("sum", k) EXCEPT !.at = a, !.key = b, !.fault = f] : k \in BOOLEAN, a \in 0..1, b \in 0..1, f \in {"", "proof"}}
Init == /\ o \in Items /\ now \in {P * Periods - 2, P * Periods}
        /\ cfg \in {[slot |-> s, cur |-> Com(L!Period(s)), next |-> n] : s \in {0, P - 1, P}, n \in {0, 2}}
Next == FALSE /\ UNCHANGED <<o, cfg, now>>
Spec == Init /\ [][Next]_<<o, cfg, now>>
Yes == B!Accepted(B!Store(cfg), o, now, 0)

\* Once the chain is known an item has one key only; for finality updates any slot up to their own.
OneKey == Yes /\ o.known =>
  CASE o.kind = "boot" -> o.key = "own"
    [] o.kind = "range" -> o.count = 1 /\ o.start = L!Period(o.us[1].att)
    [] o.kind = "fin" -> o.at <= o.us[1].fin
    [] o.kind = "opt" -> o.at = o.us[1].sig
    [] OTHER -> o.key = o.at
\* Nothing forged, nothing from the future and nothing that is not new gets in.
Sound == Yes /\ o.known /\ o.us # <<>> =>
  LET u == o.us[1] IN /\ u.sig <= now /\ u.att < u.sig /\ u.fault # "sig"
                      /\ u.fork = "electra"
                      /\ (u.att > cfg.slot \/ (cfg.next = 0 /\ o.kind = "range"))
                      /\ u.signer = (IF L!Period(u.sig) = L!Period(cfg.slot) THEN cfg.cur ELSE cfg.next)
\* Knowing more never makes more acceptable.
Stricter == Yes => B!Accepted(B!Store(cfg), [o EXCEPT !.known = FALSE], now, 0)
=============================================================================
