------------------------------- MODULE KeysMC -------------------------------
(* Keys with telling fields, their encodings and damaged ones.               *)
EXTENDS Keys, Json, IOUtils

CONSTANTS Full
VARIABLE x

Rep(b, n) == [i \in 1..n |-> b]
Hashes == {Rep(0, 32), Rep(255, 32), [i \in 1..32 |-> i - 1], [i \in 1..32 |-> (7 * i + 130) % 256]}
Numbers == {Rep(0, 8), Rep(255, 8), <<1, 2, 3, 4, 5, 6, 7, 8>>, <<78, 97, 188, 0, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0, 0, 0, 0>>,
            <<255, 255, 0, 0, 0, 0, 0, 128>>, <<0, 1, 0, 0, 0, 0, 64, 0>>, <<0, 128, 128, 1, 16, 8, 2, 32>>}
Counts == {<<0>>, <<1>>, <<255>>}
Paths == {[i \in 1..n |-> (v * i + 5) % 16] : n \in {0, 1, 2, 3, 4, 31, 62, 63, 64}, v \in {0, 1, 7}}
Vals(n) == CASE n = 32 -> Hashes [] n = 8 -> Numbers [] n = 1 -> Counts [] n = 0 -> Paths
Few(n) == CASE n = 32 -> {[i \in 1..32 |-> i - 1], [i \in 1..32 |-> (7 * i + 130) % 256]}
            [] n = 8 -> {<<1, 2, 3, 4, 5, 6, 7, 8>>, Rep(255, 8)}
            [] n = 1 -> {<<9>>}
            [] n = 0 -> {[i \in 1..m |-> (i + 5) % 16] : m \in {0, 1, 2, 5, 64}}

RECURSIVE Combos(_, _)
Combos(l, f) == IF l = <<>> THEN {<<>>}
                ELSE {<<v>> \o r : v \in (IF f THEN Vals(l[1]) ELSE Few(l[1])), r \in Combos(Tail(l), f)}
KeysOf(net, f) == UNION {{[net |-> net, sel |-> q, f |-> v] : v \in Combos(Types(net)[q], f)} : q \in DOMAIN Types(net)}

\* Edits of an encoding.
Set(b, i, v) == [b EXCEPT ![i] = v]
Damaged(b) ==
  {SubSeq(b, 1, n) : n \in {0, 1, 2, Len(b) \div 2, Len(b) - 1}} \cup {b \o <<0>>, b \o <<255>>, b \o Rep(1, 32), Tail(b), <<0>> \o b}
  \cup {Set(b, 1, v) : v \in {0, 1, 2, 3, 4, 5, 6, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 34, 35, 255}}
  \cup {Set(b, i, v) : i \in {n \in {2, 3, 4, 5, 6, 34, 35, 36, 37, 38, 39, 66, 70, 71} : n <= Len(b)}, v \in {0, 1, 16, 17, 31, 32, 35, 36, 37, 64, 67, 68, 69, 72, 255}}
  \* every beginning of a path
  \cup (IF b[1] \in {32, 33} THEN {Set(b, IF b[1] = 32 THEN 38 ELSE 70, 16 * h + v) : h \in 0..15, v \in {0, 5, 15}} ELSE {})
  \* longer and cut paths
  \cup (IF b[1] \in {32, 33} THEN {b \o Rep(18, n) : n \in {1, 2, 30, 31, 32, 33}} ELSE {})

Init ==
  \/ \E n \in Nets : \E k \in KeysOf(n, Full) : x = [op |-> "key", net |-> n, sel |-> k.sel, f |-> k.f]
  \/ \E n \in Nets : \E k \in KeysOf(n, FALSE) : \E b \in Damaged(Encode(k)) : x = [op |-> "rawkey", net |-> n, raw |-> b]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

\* The encoding can be undone, nothing else decodes, and ids of blocks are all different.
Lemma ==
  IF x.op = "key"
  THEN LET k == [net |-> x.net, sel |-> x.sel, f |-> x.f] IN
       /\ Decode(x.net, Encode(k)) = {k}
       /\ x.net = "blocks" => \A o \in KeysOf("blocks", TRUE) : BlockId(o) = BlockId(k) => o = k
  ELSE \A k \in Decode(x.net, x.raw) : Encode(k) = x.raw

Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
