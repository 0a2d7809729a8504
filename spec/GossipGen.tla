------------------------------ MODULE GossipGen ------------------------------
(* Random tables and batches.                                                *)
EXTENDS Gossip, Json, IOUtils

CONSTANT Depth
VARIABLE hist

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
At(l, x) == l[(x % Len(l)) + 1]
Mix(a, i) == (a * (2 * i + 1) + (a \div 7) * i + i * i * 31) % 10007
\* At most sixteen peers share their distance from the node.
Step1 == <<1, 3, 5, 7, 11>>
PeerAt(i) == IF i <= 31 THEN i ELSE IF i <= 47 THEN 32 + 2 * (i - 32) ELSE IF i <= 63 THEN 64 + 4 * (i - 48) ELSE 128 + 8 * (i - 64)
RadAt(a, k) == LET d == Mix(a, 5) % 9 IN
  IF d = 0 THEN 1023 ELSE IF d = 1 THEN 0 ELSE IF d = 2 THEN 4 * k ELSE IF d = 3 THEN 4 * k + 1 ELSE IF d = 4 THEN 4 * k + 3
  ELSE 4 * (Mix(a, 11) % 256) + At(<<0, 1, 3>>, a)
\* x: size and spread of the table, y: radii and states, z: items
Batch(x, y, z) ==
  LET n == At(<<1, 4, 8, 9, 12, 20, 30, 47, 0>>, x)
      step == At(<<1, 1, 2, 3>>, x \div 9)
      k0 == z % 200
      m1 == At(<<1, 1, 1, 2, 3, 5, 17>>, z \div 200)
      m2 == IF (x \div 40) % 6 = 0 /\ n <= 8 THEN At(<<63, 64, 65, 66, 100>>, z) ELSE m1
      max == (y \div 3) % 3 = 0
      idx(i) == (step * i) + (IF step * n < 60 THEN (y % 15) ELSE 0)
      tab == [i \in 1..n |-> LET p == PeerAt(idx(i)) IN
                 [p |-> p, conn |-> Mix(y, i) % 6 # 0, r |-> IF max THEN 1023 ELSE RadAt(Mix(y, i + 60), p ^^ (k0 + 1))]]
      items == [i \in 1..m2 |-> [k |-> 1 + ((k0 + i - 1) % 255), aff |-> IF z % 4 = 0 THEN Mix(z, i) % 3 # 0 ELSE z % 4 # 1]]
  IN [op |-> "batch", table |-> SelectSeq(tab, LAMBDA q : q.p \in 1..255), items |-> items]

Init == hist = <<>>
Next == \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999) : hist' = Append(hist, Batch(x, y, z))
Emit == \/ Len(hist) # Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_hist
=============================================================================
