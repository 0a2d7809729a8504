------------------------------ MODULE BeaconGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES v, hist, c
B == INSTANCE Beacon
vars == <<v, hist, c>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Forks == <<"electra", "electra", "electra", "deneb", "capella", "bellatrix">>
Faults == <<"cut", "fork", "empty">>
Tag == 10 * (Len(hist) + 1)

Item(kind, key, count, val, r) ==
  [op |-> "put", kind |-> kind, key |-> key, count |-> count, val |-> val, tag |-> Tag, fork |-> Forks[1 + (r % 6)],
   fault |-> IF r > 93 THEN Faults[1 + (r % 3)] ELSE ""]
Key(op, kind, key, count) == [op |-> op, kind |-> kind, key |-> key, count |-> count]
\* Slots and epochs close to the one that is held.
Near(kind) == LET x == B!Held(v, kind) IN {0, 5, 9} \cup IF x = <<>> THEN {4, 6} ELSE {x[1], x[1] + 1, IF x[1] > 0 THEN x[1] - 1 ELSE 0}

Took(o) == /\ hist' = Append(hist, o)
           /\ v' = IF o.op = "put" THEN CHOOSE w \in B!After(v, o) : TRUE
                   ELSE IF o.op = "restart" THEN [v EXCEPT !.fin = <<>>, !.opt = <<>>] ELSE v
Put == \E kind \in One({"boot", "range", "fin", "opt", "sum"}), r \in One(0..99) :
  CASE kind = "boot" -> \E i \in One(1..4), j \in One(1..5) :
         \E o \in {Item(kind, IF r % 8 = 7 THEN j ELSE i, 0, i, r)} : Took(o)
    [] kind = "range" -> \E k \in One(0..6), n \in One(0..4), m \in One(-1..1), big \in One(0..15) :
         \E o \in {IF big = 0 THEN Item(kind, -1, 1, 1, r) ELSE IF big = 1 THEN Item(kind, 1, -1, 1, r) ELSE IF big = 2 THEN Item(kind, -2, 3, 3, r)
                   ELSE Item(kind, k, n, IF r % 7 = 6 /\ n + m >= 0 THEN n + m ELSE n, r)} : Took(o)
    [] OTHER -> \E x \in One(Near(kind)), dn \in One(0..3) :
         \E o \in {Item(kind, IF kind = "fin" /\ dn <= x THEN x - dn ELSE x, 0, x, r)} : Took(o)
Ask(op) == \E kind \in One({"boot", "range", "range", "fin", "opt", "sum"}), big \in One(0..9) :
  CASE kind = "boot" -> \E i \in One(1..5) : Took(Key(op, kind, i, 0))
    [] kind = "range" -> IF big < 2 THEN \E q \in One({<<-1, 1>>, <<-1, 2>>, <<-2, 3>>, <<1, -1>>, <<3, -2>>, <<-3, -1>>}) : Took(Key(op, kind, q[1], q[2]))
                         ELSE \E k \in One(0..7), n \in One(0..5) : Took(Key(op, kind, k, n))
    [] OTHER -> IF big = 0 THEN Took(Key(op, kind, -1, 0)) ELSE \E x \in One(Near(kind)) : Took(Key(op, kind, x, 0))
Step == \E k \in One(1..20) :
  CASE k <= 9 -> Put
    [] k \in 10..14 -> Ask("get")
    [] k \in 15..17 -> Ask("want")
    [] k = 18 -> Took([op |-> "restart"])
    [] k = 19 -> Took([op |-> "latest"])
    [] k = 20 -> Took([op |-> "prune"])

Ages == {0, 1, 7000, 600000, 863000, 863970, 864030, 864500, 900000, 2000000}
GInit == hist = <<>> /\ v = B!Empty(4, 12) /\ c = <<>>
Setup == \E a \in One(Ages) : \E b \in One(Ages \ {a}) : \E q \in One(Ages \ {a, b}) : \E e \in One(Ages \ {a, b, q}) : c' = [ages |-> <<a, b, q, e>>]
GNext == IF c = <<>> THEN Setup /\ UNCHANGED <<v, hist>> ELSE Len(hist) < MaxSteps /\ UNCHANGED c /\ Step
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson([cfg |-> c, ops |-> hist]) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
