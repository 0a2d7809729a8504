------------------------------ MODULE DirectGen ------------------------------
(* Random histories of requests to named peers; requests and transfers are   *)
(* counted from the oldest that is open.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(l, x) == l[(x % Len(l)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
PeerCount == 9
Few(a, n) == SelectSeq([i \in 1..PeerCount |-> i], LAMBDA i : Mix(a, i) % 12 < n)
Setup(x, y) == [op |-> "cfg", c |-> [rad |-> At(<<255, 0, 17, 128>>, x), tab |-> Few(x, 5), old |-> Few(y + 77, 4), odd |-> Few(y + 191, At(<<0, 1, 3>>, x \div 125))]]
Val(k, z) == [k |-> IF z % 11 = 0 THEN (k + 1) % 16 ELSE k, q |-> At(<<"canon", "weak", "canon", "bad">>, z \div 11), big |-> (z \div 44) % 4 = 0, n |-> z % 1000]
Keys == <<2, 5, 9, 14>>
Items(n, y) == [i \in 1..n |-> At(<<1, 2, 3, 5, 7, 9, 12, 14, 15, 4>>, y + (i * (1 + ((y \div 10) % 3))))]
Lists == <<<<0>>, <<256>>, <<255, 3, 256>>, <<1, 2, 3>>, <<>>, <<7, 7>>, <<257>>, <<3, 0, 3>>, <<9, 300>>, <<250, 251, 252, 253, 254, 255, 256, 0>>,
           [i \in 1..256 |-> i], [i \in 1..257 |-> i - 1], [i \in 1..256 |-> 257 - i]>>
Sizes == <<1, 2, 3, 5, 2, 8, 9, 4, 16, 64, 1, 63>>
Op(x, y, z) ==
  LET d == x % 100 IN
  IF d < 38 \/ Len(hist) = 1
  THEN LET kind == At(<<"content", "offer", "trace", "one", "nodes", "ping", "content", "trace">>, y)
           n == IF kind \in {"offer", "trace"} THEN At(Sizes, (y \div 8)) ELSE 1
           ks == IF kind \in {"ping", "nodes"} THEN <<>> ELSE IF kind = "content" THEN <<At(Keys, z)>> ELSE Items(n, z)
       IN [op |-> "call", kind |-> kind, p |-> 1 + ((z \div 64) % PeerCount), ks |-> ks,
           vs |-> IF kind \in {"offer", "trace", "one"} THEN [i \in 1..n |-> Val(ks[i], Mix(z, i))] ELSE <<>>,
           ds |-> IF kind = "nodes" THEN At(Lists, y \div 8) ELSE <<>>, ext |-> (y \div 8) % 8, r |-> z % 256]
  ELSE IF d < 76
  THEN [op |-> "reply", i |-> IF z % 3 = 0 THEN 0 ELSE z % 8,
        how |-> At(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "error", "garbled", "ok", "ok", "cross", "badcodes", "ok", "ok", "ok">>, y),
        form |-> At(<<"conn", "content", "conn", "enrs">>, y \div 17),
        rs |-> IF z % 5 = 0 THEN <<>> ELSE Few(z, At(<<1, 3, 6, 12>>, y)),
        codes |-> At(<<<<0>>, <<0, 1>>, <<2>>, <<1, 0>>, <<3, 0, 0>>, <<5, 4, 255, 0, 1>>, <<0, 0, 2, 0, 5>>, <<0, 3, 3, 3, 0, 0, 1>>, <<1, 2, 3, 4, 5, 255>>, <<4, 0, 4, 4>>>>, z \div 8),
        v |-> Val(0, z), seq |-> z % 2, r |-> (z \div 2) % 256]
  ELSE [op |-> "stream", i |-> IF z % 3 = 0 THEN 0 ELSE z % 5, how |-> At(<<"ok", "ok", "ok", "ok", "short", "broken", "unclosed", "unopened", "ok">>, y),
        v |-> Val(0, z)]

Init == hist = <<>>
Next == \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) :
          hist' = Append(hist, IF Len(hist) = 0 THEN Setup(x, y) ELSE Op(x, y, z))
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
