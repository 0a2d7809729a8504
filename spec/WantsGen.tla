------------------------------ MODULE WantsGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES hist, c
vars == <<hist, c>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Caps == {0, 400, 900, 1500, 2500, 4000, 100000}
Setup == \E n \in One(3..16), net \in One({"history", "state"}), s \in One(0..999), z \in One(1..5) :
  c' = [n |-> n, net |-> net, salt |-> s, page |-> z]
Op(op) == [op |-> op, k |-> 1, size |-> 0, cap |-> 0, max |-> 0]
Open == \E cap \in One(Caps \ {0}), z \in One(0..9), m \in One(0..c.n), w \in One(0..2) :
          hist' = Append(hist, [Op("open") EXCEPT !.cap = IF z = 0 THEN 0 ELSE cap, !.max = IF w = 0 THEN m ELSE c.n])
Put == \E k \in One(1..c.n), s \in One({1, 60, 150, 150, 333, 700}) : hist' = Append(hist, [Op("put") EXCEPT !.k = k, !.size = s])
Step == \E m \in One(1..12) : IF hist = <<>> \/ m = 1 THEN Open ELSE Put
GInit == hist = <<>> /\ c = <<>>
GNext == IF c = <<>> THEN Setup /\ UNCHANGED hist ELSE Len(hist) < MaxSteps /\ UNCHANGED c /\ Step
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson([cfg |-> c, ops |-> hist]) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
