------------------------------- MODULE WireMC -------------------------------
(* Every small payload and answer; what the design says about each of them,  *)
(* and the same list as programs for the driver.                             *)
EXTENDS Wire, Json, IOUtils

CONSTANTS Lens, MaxItems, Alphabet, MaxRaw, MaxCodes
VARIABLE x

Fills == <<129, 1, 0, 255>>
Item(n, f) == IF n = 0 THEN <<>> ELSE <<<<f, n>>>>
ItemsOf(lens, v) == [i \in 1..Len(lens) |-> Item(lens[i], Fills[((i + v) % 4) + 1])]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Rep(b, n) == [i \in 1..n |-> b]

Patterns == {[i \in 1..n |-> IF i % k = 0 THEN 0 ELSE (i + k) % 6] : n \in {7, 8, 9, 15, 16, 63, 64}, k \in {1, 2, 5, 70}}

Init ==
  \/ \E l \in Seqs(Lens, MaxItems), v \in 0..3 : x = [op |-> "items", items |-> ItemsOf(l, v)]
  \/ \E b \in Seqs(Alphabet, MaxRaw) : x = [op |-> "raw", bytes |-> b]
  \/ \E p \in {128, 255}, n \in 0..11, b \in {0, 1, 15, 16, 127}, t \in {0, 3} :
       x = [op |-> "raw", bytes |-> Rep(p, n) \o <<b>> \o Rep(7, t)]
  \/ \E c \in Seqs({0, 1, 2, 3, 4, 5, 255}, MaxCodes) \cup Patterns, v \in 0..2 : x = [op |-> "codes", codes |-> c, ver |-> v]
  \/ \E b \in Seqs({0, 1, 2, 3, 5, 6, 128, 254, 255}, 3), v \in 0..2 : x = [op |-> "rawcodes", bytes |-> b, ver |-> v]
  \/ \E b \in {0, 1, 2, 3, 128}, v \in 0..1, n \in {8, 9, 64, 65}, f \in {0, 170, 255} :
       x = [op |-> "rawcodes", bytes |-> Rep(f, n - 1) \o <<b>>, ver |-> v]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Cuts(r) == {n \in (1..4) \cup ((Size(r) - 3)..Size(r)) : 1 <= n /\ n <= Size(r)}
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

Lemma ==
  CASE x.op = "items" ->
         LET r == Enc(x.items) IN
         /\ Dec(r, <<>>, TRUE) = [ok |-> TRUE, items |-> x.items, plain |-> TRUE]
         \* a cut payload is refused unless whole items are missing
         /\ \A n \in Cuts(r) : LET w == Dec(Take(r, Size(r) - n), <<>>, TRUE) IN w.ok => Prefix(w.items, x.items)
    [] x.op = "raw" ->
         LET w == Dec(Runs(x.bytes), <<>>, TRUE) IN (w.ok /\ w.plain) => Enc(w.items) = Runs(x.bytes)
    [] x.op = "codes" -> LET d == DecCodes(x.ver, EncCodes(x.ver, x.codes)) IN d.ok /\ d.codes = Plain(x.ver, x.codes)
    [] x.op = "rawcodes" ->
         LET d == DecCodes(x.ver, x.bytes) IN
         (d.ok /\ \A i \in 1..Len(d.codes) : d.codes[i] # 255) => EncCodes(x.ver, d.codes) = x.bytes

Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
