----------------------------- MODULE ArchiveGen -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES hist
vars == <<hist>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Lens == {0, 0, 1, 2, 3, 8, 9, 16, 40, 255, 256, 300}
Value(n, b, z) == [i \in 1..n |-> IF z THEN 0 ELSE (b + i * 7) % 256]
\* offsets of interest counted from the start, kinds of damage
Step == \E n \in One(0..5), l1 \in One(Lens), l2 \in One(Lens), l3 \in One(0..12), t1 \in One({0, 1, 3, 101, 102, 255}), t2 \in One(0..255), z \in One({TRUE, FALSE}),
           k \in One(0..8), m \in One(1..12), a \in One(0..40), b \in One({0, 1, 2, 3, 8, 16, 248, 255}), a2 \in One(0..40), b2 \in One(0..255), c \in One(0..60), g \in One(1..60), h \in One({0, 65535, 65536, 70000, 16777221}), h2 \in One({8, 65528, 131072}) :
  LET es == [i \in 1..n |-> <<(t1 + i) % 256, t2, Value(CASE i % 3 = 1 -> l1 [] i % 3 = 2 -> l2 [] OTHER -> l3, t2, z)>>]
      edits == CASE m <= 2 -> <<>>
                 [] m <= 4 -> <<<<"cut", c, 0>>>>
                 [] m = 5 -> <<<<"cut", k, 0>>>>
                 [] m <= 7 -> <<<<"set", a, b>>>>
                 [] m = 8 -> <<<<"set", 2, b>>, <<"set", 3, 255>>, <<"set", 4, 255>>, <<"set", 5, b2>>>>
                 [] m = 9 -> <<<<"set", 2, 248 + (k % 8)>>, <<"set", 3, 255>>, <<"set", 4, 255>>, <<"set", 5, 255>>>>
                 [] m = 10 -> <<<<"set", a, b>>, <<"set", a2, b2>>>>
                 [] m = 11 -> <<<<"add", k, b>>>>
                 [] OTHER -> <<<<"set", a, b>>, <<"cut", c, 0>>>>
  IN hist' = Append(hist, [op |-> IF g = 1 THEN "big" ELSE "file", es |-> es, edits |-> edits, sizes |-> <<h, 3, h2>>])
GInit == hist = <<>>
GNext == Len(hist) < MaxSteps /\ Step
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
