------------------------------ MODULE VaultGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT MaxSteps
VARIABLES hist, puts
vars == <<hist, puts>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
\* the first step is about blocks, the others about snapshots
Blocks == \E n \in One({8192, 8192, 8192, 8192, 1, 8191, 8193, 5362}), h \in One({"writer", "writer2", "memory", "old", "composed", "composed old"}), e \in One({0, 1, 2, 77, 1895}) :
  hist' = Append(hist, [op |-> "history", n |-> n, how |-> IF h = "writer2" THEN "writer" ELSE h, epoch |-> e, number |-> 0, puts |-> <<>>])
Put == \E k \in One(1..8), id \in One(0..9), c \in One({0, 1, 32, 300}), m \in One({0, 0, 1, 1, 1, 2, 3}), i \in One({0, 1, 2, 30}) :
  LET due == puts # <<>> /\ puts[Len(puts)][1] = "account" /\ puts[Len(puts)][4] > 0 IN
  puts' = Append(puts, IF (due /\ k <= 6) \/ (~due /\ k = 1) THEN <<"storage", 0, i, 0>> ELSE <<"account", id, c, m>>)
\* accounts with so many storage entries each
RECURSIVE Fill(_, _)
Fill(ps, i) == IF ps = <<>> THEN <<>>
               ELSE IF Head(ps)[1] # "account" THEN Fill(Tail(ps), i)
               ELSE <<Head(ps)>> \o [j \in 1..Head(ps)[4] |-> <<"storage", 0, (i + j * 3) % 5, 0>>] \o Fill(Tail(ps), i + 1)
Loose == /\ hist' = Append(hist, [op |-> "loose", n |-> 0, how |-> "", epoch |-> 0, number |-> 5, puts |-> Fill(puts, 0)])
         /\ puts' = <<>>
Done == \E b \in One({0, 1, 8191, 15537393}) :
  /\ hist' = Append(hist, [op |-> "snapshot", n |-> 0, how |-> "", epoch |-> 0, number |-> b, puts |-> puts])
  /\ puts' = <<>>
GInit == hist = <<>> /\ puts = <<>>
GNext == CASE hist = <<>> -> Blocks /\ UNCHANGED puts
           [] Len(hist) >= MaxSteps -> FALSE
           [] OTHER -> \E n \in One(1..9) : IF n = 1 THEN (\E l \in One(1..4) : IF l = 1 THEN Loose ELSE Done) ELSE Put /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_vars
Emit == (Len(hist) = MaxSteps /\ puts = <<>>) =>
  Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
