------------------------------- MODULE Forge -------------------------------
(***************************************************************************)
(* Headers with proofs and bodies made from beacon blocks, and proofs made  *)
(* for headers from before the merge.                                       *)
(*                                                                          *)
(* x: fork; header number n and time ts; the block's slot (per, pos), for   *)
(* an early header its epoch and its place there; txs, wds and reqs count   *)
(* what the block carries; len is the size of an early epoch; wrong says    *)
(* what is wrong with the block: "hash" (it names another block hash, or    *)
(* the epoch lists another header) or "tx" (a transaction is cut off).      *)
(***************************************************************************)
EXTENDS Headers

Forks == {"early", "bellatrix", "capella", "deneb", "electra"}
KindOf(fork) == CASE fork = "early" -> "hashes" [] fork = "bellatrix" -> "roots" [] fork = "capella" -> "capella" [] OTHER -> "deneb"
\* The fields that headers gained later.
Has(fork) == CASE fork \in {"early", "bellatrix"} -> <<>>
               [] fork = "capella" -> <<"withdrawals">>
               [] fork = "deneb" -> <<"withdrawals", "blobs", "parent">>
               [] OTHER -> <<"withdrawals", "blobs", "parent", "requests">>

ForgeOk(e) ==
  LET y == e.x
      k == KindOf(y.fork)
  IN IF y.wrong # "none"
     THEN Clause("V08", ~e.built, "something is made from a block that contradicts itself")
     ELSE Clause("V08", e.built, "nothing is made from a proper block")
          \cup (IF ~e.built THEN {} ELSE
                Clause("V08", e.same, "the header made is not that of the block")
                \cup Clause("V08", e.body, "the body made is not that of the block")
                \cup Clause("V08", e.kind = k /\ e.lens = (IF k = "hashes" THEN <<Depth(k)>> ELSE <<Depth(k), ExecDepth(k)>>),
                            "the proof made is not of the kind its fork uses")
                \cup Clause("V08", k = "hashes" \/ e.slot = <<y.per, y.pos>>, "the proof made names another slot")
                \cup Clause("V08", e.tied, "the proof made does not tie the header to the beacon block")
                \cup Clause("V08", e.rooted, "the proof made does not lead to the trusted root")
                \cup Clause("V08", e.accepted, "the proof made is not accepted"))
=============================================================================
