------------------------------ MODULE CensusGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES hist, c
vars == <<hist, c>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
\* weighs: the program is about offers and choices rather than about checks and time
Setup == \E n \in One(2..5), l \in One({1, 1, 2, 8, 8, 8}), w \in One({TRUE, FALSE}), s \in One(SUBSET (1..3)) :
  c' = [n |-> n, limit |-> l, weighs |-> w, nets |-> IF s = {} THEN {1} ELSE s]
Op(op) == [op |-> op, net |-> 1, p |-> 1, key |-> -1, secs |-> 0, how |-> "", seq |-> 1, rad |-> 3, fetch |-> "ok", recs |-> <<>>, nets |-> <<>>, times |-> 1]
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
Hows == {"ok", "down", "odd", "noise"}
Fetches == {"ok", "more", "stale", "other", "none", "fail"}
Results == {"ok", "fail", "stored", "limited", "far", "declined"}
Act(k, p, h, s, r, f) == [Op("act") EXCEPT !.net = k, !.p = p, !.how = h, !.seq = s, !.rad = r, !.fetch = f]
\* sometimes the first peer is found under two records
Find(k, S, s1, s2) == [Op("find") EXCEPT !.net = k, !.recs = Listed({<<i, IF i % 2 = 0 THEN s1 ELSE s2>> : i \in S} \cup (IF s1 < s2 /\ 1 \in S THEN {<<1, s1>>} ELSE {}))]
Before == 6
Step == \E m \in One(1..20), k \in One(c.nets), p \in One(1..c.n), h \in One(Hows), h2 \in One(Hows), s \in One(1..4), s2 \in One(1..4), r \in One(1..5), f \in One(Fetches),
           q \in One(SUBSET (1..c.n)), t \in One({61, 200, 301, 700, 3400}), res \in One(Results), few \in One(1..3), y \in One(-1..2) :
  LET ok == IF m % 2 = 0 THEN "ok" ELSE h
      f2 == IF m % 3 = 0 THEN f ELSE "ok"
      i == Len(hist)
      x == CASE i < 3 -> Find(i + 1, IF m <= 10 THEN 1..c.n ELSE q, s, s2)
             [] i = Before -> [Op("init") EXCEPT !.nets = Listed(c.nets)]
             [] i < Before -> Act(k, p, IF m <= 15 THEN "ok" ELSE h, s, r, f2)
             [] i = MaxSteps - 2 -> [Op("draw") EXCEPT !.net = k]
             [] i = MaxSteps - 1 -> [Op("measure") EXCEPT !.net = k, !.how = IF m <= 10 THEN "limited" ELSE "fail"]
             [] c.weighs /\ m <= 9 -> [Op("offer") EXCEPT !.net = k, !.p = p, !.how = IF m <= 3 THEN "ok" ELSE IF m <= 6 THEN "fail" ELSE res,
                                     !.times = CASE m = 6 -> IF few = 1 THEN 350 ELSE 120 [] m \in {3, 5, 7} -> 16 [] m = 2 /\ few = 1 -> 350 [] OTHER -> few]
             [] c.weighs /\ m <= 11 -> [Op("tick") EXCEPT !.secs = t]
             [] m <= 7 -> [Op("tick") EXCEPT !.secs = t]
             [] m <= 11 -> Act(k, p, ok, s, r, f2)
             [] m = 12 -> Act(k, p, "down", s, r, f2)
             [] m <= 14 -> Find(k, q, s, s2)
             [] m = 15 -> [Op("offer") EXCEPT !.net = k, !.p = p, !.how = res, !.times = few]
             [] m <= 17 -> [Op("select") EXCEPT !.net = k, !.key = -1]
             [] OTHER -> [Op("select") EXCEPT !.net = k, !.key = y]
  IN hist' = Append(hist, x)
GInit == hist = <<>> /\ c = <<>>
GNext == IF c = <<>> THEN Setup /\ UNCHANGED hist ELSE Len(hist) < MaxSteps /\ UNCHANGED c /\ Step
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson([cfg |-> c, ops |-> hist]) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
