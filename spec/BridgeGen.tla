------------------------------ MODULE BridgeGen ------------------------------
(* Random trees of blocks around the end of a period, and histories of heads *)
(* that move along them, now and then to another branch.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(l, x) == l[(x % Len(l)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
PeerCount == 4
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

\* The parent of block i: mostly the one before, else a little further back.
Parent(x, i) == IF i = 1 THEN 0 ELSE LET r == Mix(x, i) % At(<<6, 12, 40>>, x) IN IF r = 0 THEN Max(1, i - 2) ELSE IF r = 1 THEN Max(1, i - 3) ELSE i - 1
RECURSIVE Slots(_, _, _)
Slots(x, q, n) == IF Len(q) = n THEN q
                  ELSE LET i == Len(q) + 1
                           step == 1 + (IF Mix(x + 5, i) % 6 = 0 THEN 1 + (Mix(x, i) % 2) ELSE 0)
                       IN Slots(x, Append(q, q[Parent(x, i)] + step), n)
Setup(x, y) == LET n == 30 + (y % 14)
               IN [op |-> "cfg", c |-> [par |-> [i \in 1..n |-> Parent(x, i)], slot |-> Slots(x, <<100 - (14 + ((y \div 14) % 22))>>, n), buf |-> 13,
                                        hl |-> At(<<1, 2, 4, 20>>, x \div 3), nl |-> At(<<3, 1, 2, 40>>, x \div 12)]]
C == hist[1].c
N == Len(C.par)
RECURSIVE Checkpoint(_)
Checkpoint(b) == IF b = 1 \/ C.slot[b] <= 100 THEN b ELSE Checkpoint(C.par[b])
Last == LET hs == SelectSeq(hist, LAMBDA o : o.op = "head") IN IF hs = <<>> THEN 14 ELSE hs[Len(hs)].b
Peers(z) == At(<<<<1, 2>>, <<1>>, <<2, 3, 4>>, <<3>>, <<1, 2, 3, 4>>, <<4, 1>>, <<2>>, <<>>>>, z)
Answers(z) == [p \in 1..PeerCount |-> At(<<"ok", "declined", "ok", "failed", "ok", "error", "ok", "silent">>, Mix(z, p))]
\* Heads advance with the history.
Near(z) == Max(1, Min(N, 12 + ((Len(hist) * (N - 10)) \div Depth) + (z % 4)))
Op(x, y, z) ==
  LET d == x % 100
      kind == IF Len(hist) = 1 \/ d < 50 THEN "head" ELSE IF d < 86 THEN "update" ELSE "final"
      b == CASE kind = "head" -> IF y % 12 = 0 THEN 1 + (z % N) ELSE Near(z)
             [] kind = "update" -> At(<<Last, Last, Last, Last, C.par[Max(2, Last)], Near(z), 1 + (z % N)>>, y)
             [] OTHER -> IF y % 7 = 0 THEN 1 + (z % N) ELSE Checkpoint(Last)
      ok == kind # "final" \/ C.slot[b] <= 100
      bb == IF ok THEN b ELSE Checkpoint(b)
  IN [op |-> kind, b |-> bb, view |-> IF (y \div 12) % 6 = 0 THEN Near(z \div 4) ELSE bb,
      miss |-> IF (y \div 72) % 5 = 0 THEN <<1 + ((z \div 16) % N), Max(1, bb - ((z \div 16) % 12))>> ELSE <<>>,
      epoch |-> At(<<5, 5, 5, 5, 4, 6>>, z), rp |-> Peers(z \div 8), cp |-> Peers(z \div 64), ans |-> Answers(y)]

Init == hist = <<>>
Next == \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) :
          hist' = Append(hist, IF Len(hist) = 0 THEN Setup(x, y) ELSE Op(x, y, z))
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
