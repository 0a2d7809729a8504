------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Bodies, receipts and headers of blocks, as the history network takes     *)
(* them.  c holds the bytes of every transaction, uncle, withdrawal,        *)
(* receipt and proven header that occurs; lists give their numbers there.   *)
(* A block is [txs, unc, wd, rc]; wd is empty for a block from before       *)
(* withdrawals and otherwise holds the one list of them.                    *)
(*                                                                         *)
(* Its header commits to the four lists, so of all byte strings just one is *)
(* the body and just one the receipts.                                      *)
(***************************************************************************)
EXTENDS Codec

ListHead(n) == IF n < 56 THEN <<192 + n>> ELSE IF n < 256 THEN <<248, n>> ELSE <<249, n \div 256, n % 256>>
Listed(items) == LET b == Glue(items) IN ListHead(Len(b)) \o b
Of(bytes, l) == [i \in 1..Len(l) |-> bytes[l[i]]]

Body(c, b) == IF b.wd = <<>>
              THEN Pack(<<0, 0>>, <<PackList(Of(c.txs, b.txs)), Listed(Of(c.unc, b.unc))>>)
              ELSE Pack(<<0, 0, 0>>, <<PackList(Of(c.txs, b.txs)), Listed(<<>>), PackList(Of(c.wds, b.wd[1]))>>)
Receipts(c, b) == PackList(Of(c.rcs, b.rc))
\* A block with withdrawals has no uncles.
Sound(b) == b.wd = <<>> \/ b.unc = <<>>

OwnBad(c, e) ==
  Clause("V07", Sound(e.b) => e.raw = Body(c, e.b), "the encoding of a body is not its transactions, uncles and withdrawals")
  \cup Clause("V07", Sound(e.b) => e.back, "a body's encoding decodes to another body or is refused")
  \cup Clause("V07", e.rraw = Receipts(c, e.b), "the encoding of receipts is not the list of them")
  \cup Clause("V07", e.rback, "the encoding of receipts decodes to others or is refused")
BodyBad(c, e) ==
  LET right == e.known /\ Sound(e.b) /\ e.raw = Body(c, e.b) IN
  Clause("V07", e.ok => e.known, "a body is taken without its header")
  \cup Clause("V07", (e.ok /\ e.known) => right, "a body other than the one the header commits to is taken")
  \cup Clause("V07", right => e.ok, "the body that the header commits to is refused")
ReceiptsBad(c, e) ==
  LET right == e.known /\ e.raw = Receipts(c, e.b) IN
  Clause("V07", e.ok => e.known, "receipts are taken without their header")
  \cup Clause("V07", (e.ok /\ e.known) => right, "receipts other than the ones the header commits to are taken")
  \cup Clause("V07", right => e.ok, "the receipts that the header commits to are refused")

\* c.heads: [raw, num, proven] of every header.  Two of them share their number.  hi is what the
\* number in the key has above its lower 16, 32 or 48 bits that the header's number has not.
HeadBad(c, e) ==
  LET is(i) == c.heads[i].proven /\ e.raw = c.heads[i].raw
              /\ (IF e.by = "hash" THEN i = e.k ELSE e.hi = 0 /\ c.heads[i].num = c.heads[e.k].num)
      right == \E i \in 1..Len(c.heads) : is(i)
  IN Clause("V07", e.ok => right, "a header is taken under a key that is not its own, or without a proof")
     \cup Clause("V07", right => e.ok, "a proven header is refused under its own key")
\* Headers for the moment cannot be judged at all.
OtherBad(e) == Clause("V07", ~e.ok, "content of a kind that cannot be checked is taken")
=============================================================================
