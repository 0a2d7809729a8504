------------------------------ MODULE CellsGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES hist, c
vars == <<hist, c>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Kinds == {"account", "storage", "code"}
\* node: which node or code a key commits to; two keys may commit to the same one at different places
Setup == \E n \in One(3..7), k1 \in One(Kinds), k2 \in One(Kinds), k3 \in One(Kinds), a \in One({"wide", "wide2", "half"}), tw \in One(0..3) :
  c' = [n |-> n, kinds |-> [i \in 1..n |-> CASE i % 3 = 0 -> k1 [] i % 3 = 1 -> k2 [] OTHER -> k3],
        size |-> [i \in 1..n |-> CASE i = 1 -> 0 [] i = 2 -> 1 [] i = 3 -> 100 [] i = 4 -> 1024 [] i = 5 -> 32 [] OTHER -> 500 + i],
        same |-> [i \in 1..n |-> IF tw > 0 /\ i = tw + 3 THEN tw ELSE i], wide |-> a # "half"]
Op(op) == [op |-> op, key |-> 1, form |-> "", own |-> 0, len |-> 0, off |-> 0, lim |-> 0]
Forms == {"bare", "kind", "cut", "none", "noise"}
Step == \E m \in One(1..20), k \in One(1..c.n), l \in One(1..5), o \in One(0..5), f \in One(Forms) :
  LET x == CASE m <= 7 -> [Op("put") EXCEPT !.key = k, !.form = "proof", !.own = l, !.len = l]
             [] m <= 9 -> [Op("put") EXCEPT !.key = k, !.form = "proof", !.own = IF o < l THEN o ELSE 0, !.len = l]
             [] m = 10 -> [Op("put") EXCEPT !.key = k, !.form = "proof", !.own = 0, !.len = 0]
             [] m <= 12 -> [Op("put") EXCEPT !.key = k, !.form = f, !.own = l, !.len = l]
             [] m <= 14 -> [Op("get") EXCEPT !.key = k]
             [] m <= 17 -> [Op("want") EXCEPT !.key = k]
             [] m = 18 -> Op("list")
             [] m = 19 -> Op("restart")
             [] OTHER -> [Op("get") EXCEPT !.key = k]
  IN hist' = Append(hist, x)
GInit == hist = <<>> /\ c = <<>>
GNext == IF c = <<>> THEN Setup /\ UNCHANGED hist ELSE Len(hist) < MaxSteps /\ UNCHANGED c /\ Step
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson([cfg |-> c, ops |-> hist]) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
