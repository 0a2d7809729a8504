------------------------------ MODULE HaulGen ------------------------------
(* Random archives with a few blocks each, around the ends of the files, and *)
(* ranges that begin and end at, before and after them.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(l, x) == l[(x % Len(l)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
PerFile == 8192
Places == <<0, 1, 4096, 8190, 8191>>
Number(o, f, i) == (o + f) * PerFile + Places[i]
Faults == <<"", "", "", "body", "", "receipts", "", "roots", "hashes", "", "", "">>
Files(x) == 1 + (x % 3)
RECURSIVE Blocks(_, _, _, _, _)
Blocks(o, x, f, i, q) ==
  IF f = Files(x) THEN q
  ELSE IF i > Len(Places) THEN Blocks(o, x, f + 1, 1, q)
  ELSE Blocks(o, x, f, i + 1, IF Mix(x, 7 * f + i) % 3 = 0 THEN q ELSE Append(q, [n |-> Number(o, f, i), fault |-> IF o + f = 0 THEN At(<<"genuine", "genuine", "", "hashes", "body">>, Mix(x, 40 + i)) ELSE At(Faults, Mix(x, 40 + 7 * f + i))]))
Lists == <<<<1, 2>>, <<1>>, <<2, 3>>, <<3>>, <<1, 2, 3>>, <<>>, <<3, 1>>>>
Words == <<"ok", "declined", "ok", "failed", "ok", "error", "silent", "ok">>
Setup(x, y, z) ==
  LET o == At(<<2000, 100, 1895, 0>>, x \div 3)
      lo == Mix(z, 1) % Files(x)
      hi == lo + (Mix(z, 2) % (Files(x) - lo))
      a == Number(o, lo, 1 + (Mix(z, 3) % 5))
      b == Number(o, hi, 1 + (Mix(z, 4) % 5))
  IN [op |-> "run", c |-> [first |-> o, last |-> o + Files(x) - 1, blocks |-> Blocks(o, x, 0, 1, <<>>), limit |-> At(<<1, 2, 3, 5, 8, 40>>, y), random |-> (y \div 6) % 2,
                           start |-> IF a < b THEN a ELSE b, end |-> IF Mix(z, 5) % 3 = 0 THEN 0 ELSE IF a < b THEN b ELSE a,
                           cp |-> [i \in 1..(3 + (y % 4)) |-> At(Lists, Mix(y, i))], ans |-> [i \in 1..(4 + (x % 3)) |-> At(Words, Mix(y, 20 + i))]]]

Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) : hist' = Append(hist, Setup(x, y, z))
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
