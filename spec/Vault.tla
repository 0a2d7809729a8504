------------------------------- MODULE Vault --------------------------------
(***************************************************************************)
(* Archives of blocks and of state.  A history archive holds exactly Blocks *)
(* blocks and an index of where each of them starts.  A state snapshot is a *)
(* list of accounts, each followed by as many storage entries as it         *)
(* announces, all but the last of which are full (Full items).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Blocks, Short, Full

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

\* an entry is <<kind, id, size of code or number of items, announced storage entries>>
Takes(left, x) ==
  IF x[1] = "account" THEN left = 0
  ELSE left > 0 /\ (IF left = 1 THEN x[3] <= Full ELSE x[3] = Full)
After(left, x) == IF x[1] = "account" THEN x[4] ELSE left - 1
RECURSIVE Kept(_, _)
\* what a writer takes: per entry whether it is taken, the entries taken, and how many are still due
Kept(left, xs) ==
  IF xs = <<>> THEN [ok |-> <<>>, es |-> <<>>, left |-> left]
  ELSE LET x == Head(xs)
           t == Takes(left, x)
           r == Kept(IF t THEN After(left, x) ELSE left, Tail(xs))
       IN [ok |-> <<t>> \o r.ok, es |-> (IF t THEN <<x>> ELSE <<>>) \o r.es, left |-> r.left]

OnHistory(e) ==
  Clause("E02", e.ok <=> e.n = Blocks, "an archive is finished with the wrong number of blocks, or one with the right number is not")
  \cup (IF ~e.ok THEN {} ELSE
        (IF e.how = "memory" THEN {} ELSE
         Clause("E02", e.named /\ ~e.left, "a finished archive does not carry its proper name"))
        \cup Clause("E02", e.starts /\ e.count = Blocks /\ e.indices = Blocks, "the index of an archive names the wrong blocks")
        \cup Clause("E02", e.heads = Blocks, "the index of an archive does not lead to every block")
        \cup Clause("E02", e.read = Blocks /\ e.right = Blocks /\ e.number, "an archive read as a whole does not return the blocks")
        \cup Clause("E02", e.one = Blocks /\ e.oneright = Blocks, "an archive read block by block does not return the blocks")
        \cup Clause("E02", e.again, "an archive that was read is not written back the same"))
\* the last archive of the older format is shorter than the others
OnOld(e) ==
  Clause("E02", e.ok <=> e.n \in {Blocks, Short}, "an archive is finished with the wrong number of blocks, or one with the right number is not")
  \cup (IF ~e.ok THEN {} ELSE
        Clause("E02", e.same /\ e.number, "an archive read as a whole does not return the blocks")
        \cup Clause("E02", e.one, "an archive read block by block does not return the blocks")
        \cup Clause("E02", e.again, "an archive that was read is not written back the same"))
OnSnapshot(e) ==
  LET k == Kept(0, e.puts) IN
  Clause("E02", e.ok = k.ok, "a snapshot takes an entry out of place or refuses one in place")
  \cup Clause("E02", e.headed, "a snapshot carries the wrong header")
  \cup Clause("E02", ~e.again, "a snapshot is overwritten by another of the same block")
  \cup Clause("E02", [i \in DOMAIN e.got |-> SubSeq(e.got[i], 1, 4)] = k.es /\ \A i \in DOMAIN e.got : e.got[i][5], "a snapshot does not return what was put into it")
  \cup Clause("E02", k.left = 0 => e.finished, "a complete snapshot cannot be read to its end")
\* a file that is right but for its number of blocks
OnComposed(e) ==
  Clause("E02", e.ok <=> (e.n = Blocks \/ (e.how = "composed old" /\ e.n = Short)), "an archive with the wrong number of blocks is read, or one with the right number is not")
  \cup Clause("E02", e.ok => e.read = e.n, "an archive read as a whole does not return the blocks")
\* the accounts each announce as many storage entries as follow them, whatever their sizes
OnLoose(e) ==
  Clause("E02", e.finished /\ [i \in DOMAIN e.got |-> SubSeq(e.got[i], 1, 4)] = e.puts /\ \A i \in DOMAIN e.got : e.got[i][5], "a snapshot does not return what was put into it")
Clauses(e) == CASE e.e = "history" -> OnHistory(e) [] e.e = "old" -> OnOld(e) [] e.e = "composed" -> OnComposed(e) [] e.e = "loose" -> OnLoose(e) [] OTHER -> OnSnapshot(e)
=============================================================================
