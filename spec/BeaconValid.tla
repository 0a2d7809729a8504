----------------------------- MODULE BeaconValid -----------------------------
(* Which items of the beacon network are accepted (V06).                     *)
(*                                                                           *)
(* What the node knows of the chain (if anything: known) is a light client   *)
(* store [fin, cur, next], as in Light, and the finalized header.  An item   *)
(* is judged together with its key:                                          *)
(*   boot   age in slots; head: is the known finalized header its own; key:  *)
(*          is the block root in the key its own                             *)
(*   range  us: updates, as in Light, with a fork; start: first period in    *)
(*          the key; count: in the key                                       *)
(*   fin, opt  us: the one update; at: the slot in the key                   *)
(*   sum    at: its epoch; key: that in the key; fault: of item or proof     *)
(* and broken tells whether its bytes were damaged.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N, Limit
L == INSTANCE Light

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Store(cfg) == [fin |-> <<cfg.slot, 0>>, opt |-> <<cfg.slot, 0>>, cur |-> cfg.cur, next |-> cfg.next, cmax |-> 0, pmax |-> 0]

\* Damaged bytes that may happen to be readable: an empty list is one.
Damaged(o) == o.broken # "" /\ ~(o.kind = "range" /\ (o.broken = "empty" \/ o.us = <<>>))
Vague(o) == o.kind = "range" /\ o.broken # "" /\ (o.broken = "empty" \/ o.us = <<>>)

YoungEnough(o, drift) == o.age + drift <= Limit
Current(u) == u.fork = "electra"
Placed(o) == \A i \in 1..Len(o.us) : L!Period(o.us[i].att) = o.start + i - 1

\* What holds of an item by itself and its key, whatever is known of the chain.
Fits(o, drift) ==
  CASE o.kind = "boot" -> YoungEnough(o, drift)
    [] o.kind = "range" -> Len(o.us) = o.count
    [] o.kind = "fin" -> Current(o.us[1]) /\ o.at <= o.us[1].fin
    [] o.kind = "opt" -> Current(o.us[1]) /\ o.at = o.us[1].sig
    [] OTHER -> o.at = o.key
\* What holds of it in view of the chain.
Agrees(st, o, now) ==
  CASE o.kind = "boot" -> o.head = "same" /\ o.key = "own"
    [] o.kind = "range" -> Placed(o) /\ \A i \in 1..Len(o.us) : Current(o.us[i]) /\ L!Good(st, o.us[i], now)
    [] o.kind \in {"fin", "opt"} -> L!Good(st, o.us[1], now)
    [] OTHER -> o.fault = ""
\* A key that an item does not answer, which shows without any knowledge.
Misnamed(o) == (o.kind = "boot" /\ o.key # "own") \/ (o.kind = "range" /\ ~Placed(o))

Accepted(st, o, now, drift) == ~Damaged(o) /\ Fits(o, drift) /\ (o.known => Agrees(st, o, now))

----------------------------------------------------------------------------
Yes(e) == e.out # "invalid"
Clauses(cfg, e) ==
  LET st == Store(cfg)
      may == {Accepted(st, e, e.now[1], 0), Accepted(st, e, e.now[2], e.drift)}
  IN IF Vague(e) THEN {}
     ELSE Clause("V06", Yes(e) => TRUE \in may, "an item was accepted that does not fit its key or the chain")
          \cup Clause("V06", ~Yes(e) => FALSE \in may \/ (~e.known /\ Misnamed(e)), "a sound item was rejected")
=============================================================================
