------------------------------ MODULE SeekGen ------------------------------
(* Random histories of lookups; requests and transfers are counted from the  *)
(* oldest that is open.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(l, x) == l[(x % Len(l)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
PeerCount == 11
Few(a, n) == SelectSeq([i \in 1..PeerCount |-> i], LAMBDA i : Mix(a, i) % 12 < n)
Setup(x, y) ==
  [op |-> "cfg", c |-> [alpha |-> At(<<3, 1, 2, 3, 4>>, x), k |-> At(<<16, 3, 5, 2, 16>>, x \div 5),
                        tab |-> Few(y, At(<<2, 4, 6, 9, 1>>, x \div 25)), old |-> Few(y + 77, 3), odd |-> Few(y + 191, At(<<0, 1, 2>>, x \div 125))]]
Val(t, z) == [k |-> IF z % 11 = 0 THEN (t + 1) % 16 ELSE t, q |-> At(<<"canon", "weak", "bad", "bad">>, z \div 11), big |-> (z \div 44) % 4 = 0, n |-> z % 1000]
Targets == <<0, 5, 9, 14>>
Op(x, y, z) ==
  LET d == x % 100 IN
  IF d < 14 \/ Len(hist) = 1
  THEN LET kind == At(<<"content", "trace", "nodes", "trace">>, y)
       IN [op |-> "look", kind |-> kind, t |-> IF kind = "nodes" THEN 12 + (z % 4) ELSE At(Targets, z)]
  ELSE IF d < 82
  THEN LET how == At(<<"enrs", "enrs", "enrs", "enrs", "enrs", "enrs", "content", "content", "conn", "conn", "enrs", "conn", "content", "error", "enrs", "garbled">>, y)
       IN [op |-> "reply", i |-> IF z % 3 = 0 THEN 0 ELSE z % 16, how |-> how,
           rs |-> IF (z \div 3) % 5 = 0 THEN <<>> ELSE (IF (z \div 15) % 7 = 0 THEN <<0>> ELSE <<>>) \o Few(z, At(<<1, 2, 4, 6>>, y \div 16)),
           v |-> Val(At(Targets, y \div 64), z)]
  ELSE IF d < 95 THEN [op |-> "stream", i |-> z % 4, how |-> At(<<"value", "value", "broken", "value", "two", "garbled", "unopened">>, y),
                       v |-> Val(At(Targets, y \div 7), z)]
  ELSE IF d < 98 THEN [op |-> "del", p |-> 1 + (z % PeerCount)]
  ELSE [op |-> "put", t |-> 14, v |-> Val(14, z)]

Init == hist = <<>>
Next == \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) :
          hist' = Append(hist, IF Len(hist) = 0 THEN Setup(x, y) ELSE Op(x, y, z))
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
