------------------------------ MODULE FeedGen ------------------------------
(* Random histories of a node that finalizes block after block, while its    *)
(* sources fail now and then.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(l, x) == l[(x % Len(l)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
PeerCount == 3
\* The last value a source gave.
Last(f) == LET vs == SelectSeq([i \in 1..Len(hist) |-> hist[i][f]], LAMBDA v : v # 0) IN IF vs = <<>> THEN 1 ELSE vs[Len(vs)]
Peers(z) == At(<<<<1, 2>>, <<1>>, <<2, 3>>, <<3>>, <<1, 2, 3>>, <<3, 1>>, <<2>>>>, z)
Answers(z) == [p \in 1..PeerCount |-> At(<<"ok", "declined", "ok", "failed", "ok", "error", "ok", "silent">>, Mix(z, p))]
\* How often things fail and move is a matter of the history.
Bad == IF hist = <<>> THEN 4 ELSE At(<<3, 6, 30>>, hist[1].opt)
Slot(x, y, z) ==
  LET fails(k) == Mix(x, k) % Bad = 0
      moves(k) == Mix(y, k) % 4 = 0
      next(f, k, step) == IF fails(k) THEN 0 ELSE Last(f) + (IF moves(k) THEN step ELSE 0)
  IN [op |-> "slot",
      opt |-> IF fails(1) THEN 0 ELSE IF hist = <<>> THEN 100 + (z % 3) ELSE Last("opt") + At(<<1, 1, 1, 0, 2>>, y),
      fin |-> IF Mix(z, 2) % 9 = 0 /\ Last("fin") > 32 THEN Last("fin") - At(<<1, 32, 0>>, z) ELSE next("fin", 2, At(<<32, 1, 64>>, z)),
      upd |-> At(<<"now", "before", "fails", "now", "empty", "after", "now">>, Mix(z, 3) \div (IF Len(hist) % 2 = 0 THEN 1 ELSE 7)),
      froot |-> next("froot", 4, 1), boots |-> IF fails(5) THEN 0 ELSE 1,
      sroot |-> next("sroot", 6, 1), states |-> IF fails(7) THEN 0 ELSE 1,
      cp |-> Peers(z \div 8), ans |-> Answers(y)]
End == [Slot(1, 1, 1) EXCEPT !.op = "end", !.opt = 0, !.fin = 0, !.upd = "fails", !.froot = 0, !.boots = 0, !.sroot = 0, !.states = 0]

Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) :
          hist' = Append(hist, IF Len(hist) + 1 = Depth THEN End ELSE Slot(x, y, z))
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
