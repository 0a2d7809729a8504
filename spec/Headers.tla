------------------------------ MODULE Headers ------------------------------
(***************************************************************************)
(* Headers with proofs.  A header belongs to one of four eras.  Its proof   *)
(* is a branch (two joined branches after the merge) that leads from the    *)
(* hash of the header to one of the roots that the node trusts for the era: *)
(*   hashes   an accumulator of (hash, difficulty) pairs for every 8192     *)
(*            blocks,                                                       *)
(*   roots    for every 8192 slots the root of (block roots, state roots),  *)
(*   capella, deneb   for every 8192 slots the root of the block roots.     *)
(* Positions in the trees follow from the layout of the containers.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

Merge == 15537394
Shanghai == 1681338455
Cancun == 1710338135
Period == 8192
FirstSummary == 758
EpochsKnown == 1897
RootsKnown == 758

Kinds == {"hashes", "roots", "capella", "deneb"}
Era(n, ts) == IF ts >= Cancun THEN "deneb" ELSE IF ts >= Shanghai THEN "capella" ELSE IF n >= Merge THEN "roots" ELSE "hashes"

\* The field `pos` of a container with `width` leaves, below index `i`.
Field(i, width, pos) == i * width + pos
\* Block: field 4 of 8 (body); body: field 9 of 16 (payload); payload: field 12 of 16, of 32 since Deneb (block hash).
ExecWidth(k) == IF k = "deneb" THEN 32 ELSE 16
ExecIndex(k) == Field(Field(Field(0, 8, 4), 16, 9), ExecWidth(k), 12)
ExecDepth(k) == CASE k = "hashes" -> 0 [] k = "deneb" -> 12 [] OTHER -> 11

\* hashes: below the mixed-in length, entry pos, first of a pair; roots: first of two lists; summaries: the list.
Index(k, pos) == CASE k = "hashes" -> Field(pos, 2, 0) [] OTHER -> pos
Depth(k) == CASE k = "hashes" -> 15 [] k = "roots" -> 14 [] OTHER -> 13

Known(k, per, sums) == CASE k = "hashes" -> per \in 0..EpochsKnown - 1
                         [] k = "roots" -> per \in 0..RootsKnown - 1
                         [] OTHER -> per \in FirstSummary..FirstSummary + sums - 1

\* x: header n, ts; proof of `kind` that claims slot (per, pos); made by folding at indices eidx and bidx up to
\* the trusted root of period bper; then `what` was changed.
Good(x) ==
  /\ x.what = "none"
  /\ x.kind = Era(x.n, x.ts)
  /\ Known(x.kind, x.per, x.summaries)
  /\ x.bper = x.per
  /\ x.bidx = Index(x.kind, x.pos)
  /\ x.kind # "hashes" => x.eidx = ExecIndex(x.kind)
  /\ x.kind = "hashes" => x.per = x.n \div Period /\ x.pos = x.n % Period

HeaderOk(e) ==
  LET x == e.x IN
  Clause("V02", Good(x) => e.ok, "a header with a valid proof of its era is rejected")
  \cup Clause("V02", (~Good(x) /\ x.kind # Era(x.n, x.ts)) => ~e.ok, "a header is accepted with a proof of another era")
  \cup Clause("V02", (~Good(x) /\ x.kind = Era(x.n, x.ts)) => ~e.ok, "a header is accepted with a proof that does not commit to it")
=============================================================================
