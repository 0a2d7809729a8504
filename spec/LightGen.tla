------------------------------ MODULE LightGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxSteps
VARIABLES d, hist, c
P == 8192
L == INSTANCE Light WITH N <- 512
vars == <<d, hist, c>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Com(p) == p + 1
Liar == 9

\* Programs, guided by what the design believes.
BS == <<512, 512, 512, 512, 450, 400, 343, 342, 342, 341, 341, 300, 258, 257, 256, 255, 172, 171, 170, 2, 1, 0>>
Faults == <<"finproof", "finother", "finplace", "nextproof", "nextother", "nextplace", "sig", "set", "msg", "domain", "genesis", "kind">>
F == d.fin[1]
O == d.opt[1]
E(k) == (L!Period(F) + k) * P          \* start of a period
Atts == {F - 1, F, F + 1, F + 2, F + 32, F + 40, F + 200, O, O + 1, O + 1, O + 2, O + 33, E(1) - 2, E(1) - 1, E(1), E(1) + 1, E(1) + 33, E(1) + 70, E(2) - 2, E(2) - 1, E(2), E(2) + 9}
Fins(a) == {a, a - 1, a - 64, a - 64, a - 70, F, F + 1, F + 1, F + 32, E(1), E(1), E(1) - 1, E(1) - 32, E(1) + 32, a + 1, F - 1}
Pos(x) == IF x < 0 THEN 0 ELSE x
Gen(kind, a, gap, f, r, x, n, tag) ==
  LET g == IF gap = 9 THEN E(1) ELSE IF gap = 8 THEN E(1) - 1 ELSE IF gap = 7 THEN E(2) ELSE a + gap
      right == IF L!Charge(d, g) > 0 THEN L!Charge(d, g) ELSE Com(L!Period(Pos(g)))
  IN [kind |-> kind, att |-> Pos(a), sig |-> Pos(g), fin |-> IF f > a /\ r % 5 # 0 THEN Pos(a) ELSE Pos(f), tag |-> tag,
      next |-> IF n = 0 THEN Liar ELSE Com(L!Period(Pos(a)) + 1),
      bits |-> BS[1 + (r % Len(BS))], from |-> r % 2, near |-> 0,
      signer |-> IF x = 20 THEN Liar ELSE IF x = 21 THEN d.cur ELSE IF x = 22 THEN L!Max(d.next, 1) ELSE right,
      fault |-> IF x <= Len(Faults) THEN Faults[x] ELSE ""]
\* Mostly sound: something the client should take up.
Sound(kind, a, w, r, tag) ==
  [kind |-> kind, att |-> a, sig |-> a + 1, fin |-> IF w = 0 THEN L!Max(a - 64, F) ELSE IF w = 1 THEN L!Max(a - (a % P), F) ELSE L!Max(a - 1, F), tag |-> tag,
   next |-> Com(L!Period(a) + 1), bits |-> BS[1 + (r % 12)], from |-> r % 2, near |-> 0,
   signer |-> L!Max(L!Charge(d, a + 1), 1), fault |-> IF r > 900 THEN Faults[1 + (r % Len(Faults))] ELSE ""]
Draw(kind, tag, Do(_)) ==
  \E m \in One(1..2) : IF m = 1 THEN
  \E a \in One({F + 1, F + 40, F + 66, L!Max(F, O) + 1, L!Max(F, O) + 65, E(1) - 2, E(1) - 40, E(1) + 70, E(1) + 3000, E(1) - 1}), w \in One({0, 0, 1, 2, 3} \ {3}), r \in One(0..999) :
     \E u \in {Sound(kind, a, w, r, tag)} : Do(u)
  ELSE
  \E a \in One(Atts), gap \in One({-1, 0, 1, 1, 2, 3, 7, 8, 9} \cup 4..6) :
  \E f \in One(Fins(a)), r \in One(0..999), x \in One(1..48), n \in One(0..9) :
     \E u \in {Gen(kind, a, IF gap \in 3..6 THEN 1 ELSE gap, f, r, x, n, tag)} : Do(u)

Op(o, b, us, f, q) == [op |-> o, boot |-> b, us |-> us, f |-> f, o |-> q]
NoBoot == [fault |-> ""]
Nominal == 4 * P + P \div 2
Then(s, us) == LET may == L!Run(s, us, Nominal) IN CHOOSE x \in may : \A y \in may : x.fin[1] >= y.fin[1]
Took(o, s, us) == \E q \in {o}, x \in {Then(s, us)} : hist' = Append(hist, q) /\ d' = x

Tag(i) == 6 * Len(hist) + i
\* Signed about now: the driver puts the slot at the wall clock plus near - 5.  The design goes by the nominal time.
Fresh(kind, r, tag) ==
  [kind |-> kind, att |-> Nominal - 1, sig |-> Nominal, fin |-> F, tag |-> tag, next |-> Com(L!Period(Nominal) + 1),
   bits |-> 512 - (r % 100), from |-> r % 2, near |-> 3 + (r % 5), signer |-> L!Max(L!Charge(d, Nominal), 1), fault |-> ""]
Advance ==
  \E k \in One(IF d.next = 0 THEN 1..12 ELSE 1..7), y \in One(0..1), r0 \in One(0..999) :
    CASE y = 1 /\ k \in 3..6 /\ L!Charge(d, Nominal) > 0 /\ O < Nominal - 9 ->
                    LET q == Fresh("optimistic", r0, Tag(1)) u == Fresh("finality", r0, Tag(1))
                    IN IF k = 3 THEN Took(Op("advance", NoBoot, <<>>, <<u>>, <<>>), d, IF q.near <= 5 THEN <<u>> ELSE <<>>)
                                ELSE Took(Op("advance", NoBoot, <<>>, <<>>, <<q>>), d, IF q.near <= 5 THEN <<q>> ELSE <<>>)
      [] k \in {1, 2} -> Draw("finality", Tag(1), LAMBDA f : Took(Op("advance", NoBoot, <<>>, <<f>>, <<>>), d, <<f>>))
      [] k \in {3, 4} -> Draw("optimistic", Tag(1), LAMBDA q : Took(Op("advance", NoBoot, <<>>, <<>>, <<q>>), d, <<q>>))
      [] k = 5 -> Draw("finality", Tag(1), LAMBDA f : Draw("optimistic", Tag(2), LAMBDA q :
                    Took(Op("advance", NoBoot, <<>>, <<f>>, <<q>>), d, <<f, q>>)))
      [] OTHER -> Draw("update", Tag(1), LAMBDA u : \E r \in One(0..999) :
                    \* an optimistic update that will pass, so that the next committee is asked for
                    LET a == L!Max(F + 1, IF r % 3 = 0 THEN O + 1 ELSE O)
                        q == [kind |-> "optimistic", att |-> a, sig |-> a + 1, fin |-> 0, tag |-> Tag(2), next |-> 0,
                              bits |-> BS[1 + (r % Len(BS))], from |-> 0, near |-> 0, signer |-> L!Max(L!Charge(d, a + 1), 1), fault |-> ""]
                    IN Took(Op("advance", NoBoot, <<u>>, <<>>, <<q>>), d, IF d.next = 0 THEN <<q, u>> ELSE <<q>>))
\* Updates of a synchronisation follow each other, one per period.
Chain(r, k, n) ==
  LET a == (L!Period(c.slot) + k - 1) * P + 7000 + ((r \div (3 * k)) % 1000)
      a1 == IF a <= c.slot THEN c.slot + 1 ELSE a
      x == (r \div (50 * k)) % 40
  IN [kind |-> "update", att |-> a1, sig |-> a1 + 1, fin |-> IF r % 11 = k THEN c.slot + 1 ELSE L!Max(a1 - 64 - (r % 7), (L!Period(c.slot) + k - 1) * P),
      tag |-> Tag(k), next |-> IF x = 30 THEN Liar ELSE Com(L!Period(a1) + 1),
      bits |-> BS[1 + ((r \div (7 * k)) % 10)], from |-> r % 2, near |-> 0, signer |-> Com(L!Period(a1 + 1)),
      fault |-> IF x <= Len(Faults) /\ x > 0 /\ r % 3 = 0 THEN Faults[x] ELSE ""]
\* A head that follows what the client believes by then.
Head1(kind, x, r, tag) ==
  LET a == L!Max(x.fin[1], x.opt[1]) + 1 + (r % 40)
  IN [kind |-> kind, att |-> a, sig |-> a + 1, fin |-> IF kind = "optimistic" THEN 0 ELSE x.fin[1] + (r % 3), tag |-> tag, next |-> 0,
      bits |-> BS[1 + (r % 12)], from |-> r % 2, near |-> 0, signer |-> L!Max(L!Charge(x, a + 1), 1),
      fault |-> IF r % 17 = 0 THEN Faults[1 + (r % Len(Faults))] ELSE ""]
Sync ==
  \E r \in One(0..99999), n \in One(0..3), y \in One(0..3), bf \in One({"", "header", "proof", "place", "other", "future"} \cup {"z1", "z2", "z3", "z4", "z5", "z6", "z7"}) :
    LET us == [k \in 1..n |-> Chain(r, k, n)]
        bad == bf \in L!BootFaults
        start == L!Boot(c, d)
        x == Then(start, us)
        f == IF y \in {1, 2} THEN <<Head1("finality", x, r \div 7, Tag(4))>> ELSE <<>>
        x1 == Then(x, f)
        q == IF y >= 2 THEN <<Head1("optimistic", x1, r \div 11, Tag(5))>> ELSE <<>>
    IN Took(Op("sync", [fault |-> IF bad THEN bf ELSE ""], us, f, q), IF bad \/ (c.strict = 1 /\ c.age <= 0) THEN d ELSE start,
            IF bad \/ (c.strict = 1 /\ c.age <= 0) THEN <<>> ELSE us \o f \o q)

GInit == hist = <<>> /\ d = L!Nobody /\ c = <<>>
Setup == \E p \in One(0..3), o \in One({0, 1, 31, 32, 4000, 7000, P - 70, P - 2, P - 1}), nm \in One({"portal", "nimbus"}), st \in One(0..2), ag \in One({-1000, -1, 0, 1, 2, 3, 50, 1000, 1001, 1002, 1003}) :
           c' = [slot |-> p * P + o, cur |-> Com(p), name |-> nm, strict |-> IF st = 1 THEN 1 ELSE 0, age |-> ag]
GNext == IF c = <<>> THEN Setup /\ UNCHANGED <<d, hist>>
         ELSE Len(hist) < MaxSteps /\ UNCHANGED c /\ \E z \in One(0..9) : IF d.fin[1] < 0 \/ z = 0 THEN Sync ELSE Advance
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson([cfg |-> c, ops |-> hist]) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
