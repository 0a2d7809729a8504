---------------------------- MODULE BeaconValidGen ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES hist, c
P == 8192
B == INSTANCE BeaconValid WITH N <- 512, Limit <- 864000
L == INSTANCE Light WITH N <- 512
vars == <<hist, c>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Com(p) == p + 1
Liar == 9
Mostly(r, m, x, y) == IF r % m = 0 THEN x ELSE y

Forks == <<"deneb", "capella", "bellatrix">>
Faults == <<"finproof", "finother", "finplace", "nextproof", "nextother", "nextplace", "sig", "set", "msg", "domain", "genesis", "kind">>
Breaks == <<"cut", "fork", "empty", "short">>
F == c.slot
E(k) == (L!Period(F) + k) * P
Broken(r) == IF r % 12 = 0 THEN Breaks[1 + ((r \div 12) % 4)] ELSE ""

\* An update that should pass, with at most one thing wrong with it.
Atts == {F, F + 1, F + 2, F + 40, F + 100, E(1) - 2, E(1) - 1, E(1), E(1) + 5, E(1) + 300, E(2) - 1, E(2)}
Up(kind, a, r, q, tag) ==
  LET at == IF a < F THEN F ELSE a
      g == at + Mostly(r, 23, 0, Mostly(r, 19, 2, 1))
      right == IF L!Charge(B!Store(c), g) > 0 THEN L!Charge(B!Store(c), g) ELSE Com(L!Period(g))
      w == q % 34
  IN [kind |-> kind, att |-> at, sig |-> IF w = 20 THEN 5 * P + 4000 ELSE g, fin |-> IF w = 21 THEN at + 1 ELSE IF w \in {22, 23} THEN at ELSE IF at > 64 THEN at - 64 ELSE 0,
      tag |-> tag, next |-> Com(L!Period(at) + 1), bits |-> IF w = 24 THEN 0 ELSE IF w = 25 THEN 1 ELSE IF w = 26 THEN 341 ELSE 500, from |-> r % 2,
      signer |-> IF w = 27 THEN Liar ELSE IF w = 28 THEN c.cur ELSE IF w = 29 THEN L!Max(c.next, 1) ELSE right,
      fault |-> IF w \in 1..12 THEN Faults[w] ELSE "", fork |-> IF w \in 13..15 THEN Forks[w - 12] ELSE "electra"]

Base(kind, known, broken) == [kind |-> kind, known |-> known, broken |-> broken, us |-> <<>>, at |-> 0, start |-> 0, count |-> 0, key |-> "", fault |-> "", head |-> "", age |-> 0, tag |-> 0, fork |-> "electra", len |-> 0]
Took(o) == hist' = Append(hist, o)
Tag(i) == 5 * Len(hist) + i
AllForks == {"electra", "electra", "deneb", "capella", "bellatrix"}

Boot(r, k, br) == \E age \in One({0, 1, 100, 8192, 700000, 863998, 863999, 864000, 864000, 864001, 864002, 864003, 900000, 1000000, 2000000}),
                 h \in One({"same", "same", "other"} \cup {"same1", "same2"}), key \in One({"own", "own1", "own2", "other"}), fk \in One(AllForks) :
  Took([Base("boot", k, br) EXCEPT !.age = age, !.head = IF h = "other" THEN h ELSE "same", !.key = IF key = "other" THEN key ELSE "own", !.tag = Tag(1), !.fork = fk])
Range(r, k, br) == \E n \in One(0..3), q1 \in One(0..999), q2 \in One(0..999), q3 \in One(0..999), a1 \in One(Atts), d \in One({0, 0, 1, 2, 3} \cup 4..12), e \in One(0..12) :
  \E us \in {SubSeq(<<Up("update", a1, q1, q1, Tag(1)), Up("update", (L!Period(a1) + 1) * P + (q2 % 300), q2, q2, Tag(2)),
                      Up("update", IF q3 % 2 = 0 THEN (L!Period(a1) + 1) * P ELSE (L!Period(a1) + 2) * P + 7, q3, q3, Tag(3))>>, 1, n)} :
    Took([Base("range", k, br) EXCEPT !.us = us, !.start = (IF us = <<>> THEN 0 ELSE L!Period(us[1].att)) + (IF d = 1 THEN 1 ELSE IF d = 2 THEN -1 ELSE IF d = 3 THEN -4 ELSE 0),
             !.count = n + (IF e = 1 THEN 1 ELSE IF e = 2 /\ n > 0 THEN -1 ELSE 0)])
Fin(r, k, br) == \E q \in One(0..9999), a \in One(Atts), d \in One({-3, -1, 0, 0, 1, 5} \cup {-100, -2000}) :
  \E u \in {Up("finality", a, q \div 7, q, Tag(1))} : Took([Base("fin", k, br) EXCEPT !.us = <<u>>, !.at = IF u.fin + d < 0 THEN 0 ELSE u.fin + d])
Opt(r, k, br) == \E q \in One(0..9999), a \in One(Atts), d \in One({-1, 0, 1} \cup 2..8) :
  \E u \in {Up("optimistic", a, q \div 7, q, Tag(1))} : Took([Base("opt", k, br) EXCEPT !.us = <<u>>, !.at = IF d > 1 THEN u.sig ELSE IF u.sig + d < 0 THEN 0 ELSE u.sig + d])
Sum(r, k, br) == \E len \in One(1..9), at \in One({0, 1, 7, 1000}), d \in One(0..5), f \in One({"", "f1", "f2", "f3", "f4", "proof", "item", "longer", "root", "place", "place2"}), fk \in One(AllForks) :
  Took([Base("sum", k, br) EXCEPT !.len = len, !.at = at, !.key = IF d = 0 THEN at + 1 ELSE IF d = 1 /\ at > 0 THEN at - 1 ELSE at,
           !.fault = IF f \in {"f1", "f2", "f3", "f4"} THEN "" ELSE f, !.fork = fk])

Step == \E m \in One(1..11), r \in One(0..9999) :
  LET k == (r \div 100) % 4 # 0   br == Broken(r) IN
  CASE m \in {1, 2} -> Boot(r, k, br) [] m \in 3..5 -> Range(r, k, br) [] m \in {6, 7} -> Fin(r, k, br) [] m \in {8, 9} -> Opt(r, k, br) [] OTHER -> Sum(r, k, br)
GInit == hist = <<>> /\ c = <<>>
Setup == \E p \in One(0..3), o \in One({0, 1, 100, 4000, P - 70, P - 2, P - 1}), n \in One(0..2) :
           c' = [slot |-> p * P + o, cur |-> Com(p), next |-> IF n = 0 THEN 0 ELSE Com(p + 1)]
GNext == IF c = <<>> THEN Setup /\ UNCHANGED hist ELSE Len(hist) < MaxSteps /\ UNCHANGED c /\ Step
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson([cfg |-> c, ops |-> hist]) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
