------------------------------ MODULE WalkGen ------------------------------
(* Random tries of up to a dozen keys with long common prefixes, parts of     *)
(* them missing, and slices of all sizes.                                     *)
EXTENDS Walk, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(q, x) == q[(x % Len(q)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
Alphabets == <<<<0, 15>>, <<0, 1, 8>>, <<5, 10, 11>>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>, <<7, 8>>>>
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Some(x, n) == LET a == At(Alphabets, x) b == At(Alphabets, x \div 5) IN
  {<<At(a, Mix(x, 4 * i) \div 3), At(b, Mix(x, 4 * i + 1) \div 5), At(a, Mix(x, 4 * i + 2) \div 2), At(b, Mix(x, 4 * i + 3) \div 7)>> : i \in 1..n}
Sizes == <<1, 2, 3, 5, 8, 12>>
Slices == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 32, 100, 255, 256, 257, 4096, 3000, 16384, 30000>>
\* Slices in which there is something: that of a key, or one beside it.
SliceOf(k, c, x) == LET i == (Value(k) * (c \div 2)) \div 32768
                        d == CASE x % 4 = 0 -> i + 1 [] x % 4 = 1 /\ i > 0 -> i - 1 [] OTHER -> i
                    IN IF c < 2 THEN 0 ELSE IF d >= c THEN c - 1 ELSE d
Setup(x, y, z) ==
  LET K == IF x % 97 = 0 THEN {} ELSE Some(x, At(Sizes, y))
      mode == At(<<"partial", "slice", "partial", "slice", "slice", "all", "lot">>, z)
      c == IF mode = "lot" THEN (z \div 7) % 18 ELSE At(Slices, z \div 7)
      N == ToSeq(Nodes(K))
      gone == IF mode = "partial" /\ N # <<>> THEN {At(N, Mix(z, j)) : j \in 1..(y \div 6) % 4} ELSE IF z % 53 = 0 THEN {<<>>} ELSE {}
  IN [op |-> "run", c |-> [mode |-> mode, keys |-> ToSeq(K), absent |-> ToSeq(IF mode = "partial" /\ z % 10 # 0 THEN gone \ {<<>>} ELSE gone), slices |-> c,
                           slice |-> IF K = {} THEN 0 ELSE SliceOf(At(ToSeq(K), y), c, y \div 3)]]

Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) : hist' = Append(hist, Setup(x, y, z))
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
