-------------------------------- MODULE Light --------------------------------
(* The light client of the beacon chain (L01, L02, L03).                     *)
(*                                                                           *)
(* Slots are numbered from the start of some committee period; P is the      *)
(* length of a period and N the size of a committee.  A committee is a       *)
(* number > 0 (0 is none).  A header is a pair <<slot, tag>>, the tag telling *)
(* headers of the same slot apart.                                           *)
(*                                                                           *)
(* An update is                                                              *)
(*   kind   "update", "finality" or "optimistic": only the first brings a    *)
(*          next committee, the last brings no finalized header              *)
(*   att, sig, fin   slots of the attested header, of the signature and of   *)
(*          the finalized header                                             *)
(*   tag    of the attested header; FinTag(tag) is that of the finalized one *)
(*   next   the committee it brings                                          *)
(*   bits   how many members signed; signer: the committee they are of       *)
(*   fault  what was tampered with, "" for nothing                           *)
(* What a client believes is                                                 *)
(*   fin, opt  headers; cur, next: committees; cmax, pmax: the most members  *)
(*   that signed an accepted update since the last, and before the last,     *)
(*   change of committee.                                                    *)
(*   tell   the tags of the updates its watchers were last told of, by kind  *)
(* A client is set up with the slot and committee of its checkpoint, whether *)
(* it is strict about the age of a checkpoint and the limit, in slots, of it.*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, N

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Max(a, b) == IF a > b THEN a ELSE b
Period(slot) == slot \div P
FinTag(tag) == 1000 + tag
Silent == [update |-> 0, finality |-> 0, optimistic |-> 0]
Nobody == [fin |-> <<-1, 0>>, opt |-> <<-1, 0>>, cur |-> -1, next |-> 0, cmax |-> 0, pmax |-> 0, tell |-> Silent]

FinFaults == {"finproof", "finother", "finplace"}
NextFaults == {"nextproof", "nextother", "nextplace"}
SigFaults == {"sig", "set", "msg", "domain", "genesis", "kind"}
BootFaults == {"header", "proof", "place", "other", "future"}

HasFin(u) == u.kind # "optimistic"
HasNext(u) == u.kind = "update"

----------------------------------------------------------------------------
(* The design *)

\* The committee in charge of a signature, 0 if the client does not know it.
Charge(s, slot) ==
  IF Period(slot) = Period(s.fin[1]) THEN s.cur
  ELSE IF Period(slot) = Period(s.fin[1]) + 1 THEN s.next ELSE 0

InOrder(u, now) == now >= u.sig /\ u.sig > u.att /\ (HasFin(u) => u.att >= u.fin)
Relevant(s, u) ==
  \/ u.att > s.fin[1]
  \/ s.next = 0 /\ HasNext(u) /\ Period(u.att) = Period(s.fin[1])
Proven(u) == (HasFin(u) => u.fault \notin FinFaults) /\ (HasNext(u) => u.fault \notin NextFaults)
Signed(s, u) == Charge(s, u.sig) > 0 /\ u.signer = Charge(s, u.sig) /\ u.fault \notin SigFaults
Good(s, u, now) == u.bits > 0 /\ InOrder(u, now) /\ Relevant(s, u) /\ Proven(u) /\ Signed(s, u)

Enough(u) == u.bits * 3 >= N * 2
Newer(s, u) == HasFin(u) /\ u.fin > s.fin[1]
BringsNext(s, u) == s.next = 0 /\ HasNext(u) /\ Period(u.fin) = Period(u.att)

Apply(s, u) ==
  LET cm == Max(s.cmax, u.bits)
      s1 == [s EXCEPT !.cmax = cm,
                      !.opt = IF u.bits > Max(cm, s.pmax) \div 2 /\ u.att > s.opt[1] THEN <<u.att, u.tag>> ELSE s.opt]
      new == IF HasNext(u) THEN u.next ELSE 0
      s2 == IF s1.next = 0 THEN [s1 EXCEPT !.next = new]
            ELSE IF Period(u.fin) = Period(s1.fin[1]) + 1
            THEN [s1 EXCEPT !.cur = s1.next, !.next = new, !.pmax = s1.cmax, !.cmax = 0]
            ELSE s1
      s3 == IF ~Newer(s1, u) THEN s2
            ELSE [s2 EXCEPT !.fin = <<u.fin, FinTag(u.tag)>>,
                            !.opt = IF u.fin > s2.opt[1] THEN <<u.fin, FinTag(u.tag)>> ELSE s2.opt]
      x == IF Enough(u) /\ (Newer(s1, u) \/ BringsNext(s1, u)) THEN s3 ELSE s1
  \* watchers hear of what moved a header
  IN IF x.fin = s.fin /\ x.opt = s.opt THEN x ELSE [x EXCEPT !.tell = [@ EXCEPT ![u.kind] = u.tag]]

Step(s, u, now) == IF Good(s, u, now) THEN Apply(s, u) ELSE s

\* What the client may believe after a sequence of updates: it may give up at a bad one.
RECURSIVE Run(_, _, _)
Run(s, us, now) ==
  IF us = <<>> THEN {s}
  ELSE IF Good(s, us[1], now) THEN Run(Apply(s, us[1]), Tail(us), now)
  ELSE {s} \cup Run(s, Tail(us), now)

\* Whether every one of them is a good one when its turn comes.
RECURSIVE AllGood(_, _, _)
AllGood(s, us, now) == us = <<>> \/ (Good(s, us[1], now) /\ AllGood(Apply(s, us[1]), Tail(us), now))

\* What was told before stays told.
Boot(c, s) == [fin |-> <<c.slot, 0>>, opt |-> <<c.slot, 0>>, cur |-> c.cur, next |-> 0, cmax |-> 0, pmax |-> 0, tell |-> s.tell]
TooOld(c, now) == c.strict = 1 /\ now - c.slot >= c.limit

\* The period an advance asks an update of, -1 for none; the periods a synchronisation needs.
Wanted(s) == IF s.next = 0 THEN Period(s.fin[1]) ELSE -1
Needed(c, now) == Period(c.slot)..(Period(now) - 1)

----------------------------------------------------------------------------
(* What is seen *)

Refused(c, e, now) == e.e = "sync" /\ (e.boot.fault \in BootFaults \/ TooOld(c, now))
At(c, s, e, now) == Run(IF e.e = "sync" THEN Boot(c, s) ELSE s, e.served, now)
After(c, s, e) == UNION {IF Refused(c, e, n) THEN {s} ELSE At(c, s, e, n) : n \in {e.now[1], e.now[2]}}

\* Ranges of periods, each a pair of the first one and how many, follow each other from p on.
RECURSIVE Follow(_, _)
Follow(asked, p) == asked = <<>> \/ (asked[1][1] = p /\ Follow(Tail(asked), p + asked[1][2]))
Covered(asked) == UNION {asked[i][1]..(asked[i][1] + asked[i][2] - 1) : i \in DOMAIN asked}

AsksSync(c, s, e, now) ==
  IF Refused(c, e, now) THEN e.asked = <<>>
  ELSE /\ Follow(e.asked, Period(c.slot))
       /\ c.name = "portal" => Covered(e.asked) \subseteq Needed(c, now)
       /\ (AllGood(Boot(c, s), e.served, now) \/ e.ok) => Needed(c, now) \subseteq Covered(e.asked)
\* The heads first, then the committee if it is not known then.
AsksAdvance(c, s, e, now) ==
  LET heads == SelectSeq(e.served, LAMBDA u : u.kind # "update")
      may == Run(s, heads, now)
      went == AllGood(s, heads, now) /\ \E i \in DOMAIN heads : heads[i].kind = "optimistic"
  IN IF e.asked = <<>> THEN ~went \/ (\A x \in may : Wanted(x) < 0)
     ELSE Len(e.asked) = 1 /\ e.asked[1][2] = 1 /\ (\E x \in may : Wanted(x) = e.asked[1][1])
Asks(c, s, e) ==
  \E n \in {e.now[1], e.now[2]} : IF e.e = "sync" THEN AsksSync(c, s, e, n) ELSE AsksAdvance(c, s, e, n)

Clauses(c, s, e) ==
  LET may == After(c, s, e)
      fresh == e.e = "sync"
      forged == fresh /\ e.boot.fault \in BootFaults
      old == fresh /\ ~forged /\ (\A n \in {e.now[1], e.now[2]} : TooOld(c, n))
      sure == ~old /\ ~(\E n \in {e.now[1], e.now[2]} : TooOld(c, n))
      seen == {x \in may : x.fin = e.fin /\ x.opt = e.opt}
  IN Clause("L01", \E x \in may : x.fin = e.fin, "the finalized header is not the one the valid updates lead to")
     \cup Clause("L01", \E x \in may : x.fin = e.fin /\ x.opt = e.opt, "the optimistic header is not the one the valid updates lead to")
     \cup Clause("L02", \E x \in may : x.cur = e.cur, "the current committee is not the one in charge")
     \cup Clause("L02", \E x \in may : x.cur = e.cur /\ x.next = e.next, "the next committee is not the one that was proven")
     \cup Clause("L02", fresh \/ (e.fin[1] >= s.fin[1] /\ e.opt[1] >= s.opt[1]), "the client goes back to an older header")
     \cup Clause("L02", e.opt[1] >= e.fin[1], "the optimistic header is behind the finalized one")
     \cup Clause("L02", forged => e.fin = s.fin /\ e.opt = s.opt /\ e.cur = s.cur /\ e.next = s.next,
                 "a forged bootstrap changes what the client believes")
     \cup Clause("L03", old => ~e.ok /\ e.fin = s.fin /\ e.opt = s.opt /\ e.cur = s.cur /\ e.next = s.next,
                 "a strict client starts from a checkpoint that is too old")
     \cup Clause("L03", fresh /\ ~forged /\ sure => e.cur > 0 /\ e.fin[1] >= c.slot, "a client does not start from its checkpoint")
     \cup Clause("L03", Asks(c, s, e), "the client does not ask for the updates of the periods it needs")
     \cup Clause("L03", seen # {} => (\E x \in seen : x.tell = e.tell), "the watchers were not told what moved the headers")

Same(x, e) == x.fin = e.fin /\ x.opt = e.opt /\ x.cur = e.cur /\ x.next = e.next /\ x.tell = e.tell
Next(c, s, e) ==
  LET may == After(c, s, e)
      same == {x \in may : Same(x, e)}
  IN IF same # {} THEN same
     ELSE LET x == CHOOSE x \in may : TRUE
          IN {[x EXCEPT !.fin = e.fin, !.opt = e.opt, !.cur = e.cur, !.next = e.next, !.tell = e.tell]}
=============================================================================
