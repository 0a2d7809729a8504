------------------------------ MODULE VaultMC -------------------------------
(* The writer and the reader of snapshots as they are designed, each with its *)
(* own count of storage entries that are due, and the index of a history      *)
(* archive as it grows with the entries written.                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxPuts, MaxDue, N, F, Sizes
Z == INSTANCE Vault WITH Blocks <- N, Short <- N, Full <- F
VARIABLES puts, ok, file, due, rat, rdue, got, size, index, lens
vars == <<puts, ok, file, due, rat, rdue, got, size, index, lens>>
Init == /\ puts = <<>> /\ ok = <<>> /\ file = <<>> /\ due = 0 /\ rat = 1 /\ rdue = 0 /\ got = <<>>
        /\ size = 8 /\ index = <<>> /\ lens = <<>>
Items == {<<"account", 0, 0, k>> : k \in 0..MaxDue} \cup {<<"storage", 0, k, 0>> : k \in 0..(F + 1)}
Put(x) ==
  /\ rat = 1 /\ index = <<>> /\ Len(puts) < MaxPuts /\ puts' = Append(puts, x)
  /\ LET t == CASE x[1] = "account" -> due = 0
                [] due = 0 -> FALSE
                [] due = 1 -> x[3] <= F
                [] OTHER -> x[3] = F
     IN /\ ok' = Append(ok, t) /\ file' = (IF t THEN Append(file, x) ELSE file)
        /\ due' = (IF ~t THEN due ELSE IF x[1] = "account" THEN x[4] ELSE due - 1)
  /\ UNCHANGED <<rat, rdue, got, size, index, lens>>
Read ==
  /\ index = <<>> /\ rat <= Len(file) /\ rat' = rat + 1
  /\ IF rdue > 0 THEN file[rat][1] = "storage" /\ rdue' = rdue - 1
     ELSE file[rat][1] = "account" /\ rdue' = file[rat][4]
  /\ got' = Append(got, file[rat])
  /\ UNCHANGED <<puts, ok, file, due, size, index, lens>>
Block(n) == /\ puts = <<>> /\ Len(index) < N /\ index' = Append(index, size) /\ size' = size + n /\ lens' = Append(lens, n)
            /\ UNCHANGED <<puts, ok, file, due, rat, rdue, got>>
Next == (\E x \in Items : Put(x)) \/ Read \/ (\E n \in Sizes : Block(n))
Spec == Init /\ [][Next]_vars
Taken == LET k == Z!Kept(0, puts) IN ok = k.ok /\ file = k.es /\ due = k.left
\* the reader never meets an entry of the kind it does not expect
Reads == rat <= Len(file) => (file[rat][1] = "storage" <=> rdue > 0)
Same == \A i \in DOMAIN got : got[i] = file[i]
Indexed == \A i \in DOMAIN index : index[i] = (IF i = 1 THEN 8 ELSE index[i - 1] + lens[i - 1])
=============================================================================
