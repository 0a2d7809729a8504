------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Splitting a block range into epochs.  A block is <<epoch, offset>>, the  *)
(* epoch relative to a base that the driver adds, so that the last epoch of *)
(* all can be described too.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
CONSTANT Epoch               \* blocks in an epoch

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* The design: epoch -> "whole" (here <<-1, -1>>) or the first and last offset.
Whole == <<-1, -1>>
Split(a, b) ==
  [e \in a[1]..b[1] |->
     LET lo == IF e = a[1] THEN a[2] ELSE 0
         hi == IF e = b[1] THEN b[2] ELSE Epoch - 1
     IN IF lo = 0 /\ hi = Epoch - 1 THEN Whole ELSE <<lo, hi>>]

\* The blocks of a piece and of the range, as the property talks about them.
Piece(e, p) == IF p = Whole THEN {<<e, o>> : o \in 0..Epoch - 1} ELSE {<<e, o>> : o \in p[1]..p[2]}

\* e.pieces: sequence of [e, whole, s, t], s and t blocks
SplitOk(a, b, e) ==
  LET P == {e.pieces[i] : i \in 1..Len(e.pieces)}
      want == Split(a, b)
  IN Clause("C03", {x.e : x \in P} = DOMAIN want /\ Cardinality(P) = Cardinality(DOMAIN want), "an epoch is missing or too many")
     \cup Clause("C03", \A x \in P : x.e \in DOMAIN want =>
                   IF x.whole THEN want[x.e] = Whole
                   ELSE x.s = <<x.e, IF x.e = a[1] THEN a[2] ELSE 0>> /\ x.t = <<x.e, IF x.e = b[1] THEN b[2] ELSE Epoch - 1>>
                        /\ want[x.e] # Whole,
                 "a piece does not cover exactly the blocks of the range in its epoch")

\* Requests: how the text was made, and what was understood.
RequestOk(e) ==
  CASE e.how = "range" ->
         Clause("C03", (e.ok /\ e.same) = Leq(e.a, e.b), "a proper range is refused, changed, or a reversed one taken")
    [] e.how = "snapshot" -> Clause("C03", e.ok /\ e.same, "a snapshot request is refused or changed")
    [] e.how = "malformed" -> Clause("C03", ~e.ok, "a malformed request is taken")
=============================================================================
