------------------------------ MODULE ForgeMC ------------------------------
(* Every kind of block at chosen places of a period.                         *)
EXTENDS Forge, Json, IOUtils
CONSTANTS Positions
VARIABLE x

Point(fork) == CASE fork = "bellatrix" -> {<<Merge, 1663224179>>, <<17034869, Shanghai - 1>>}
                 [] fork = "capella" -> {<<17034870, Shanghai>>, <<19426586, Cancun - 1>>}
                 [] fork = "deneb" -> {<<19426587, Cancun>>}
                 [] OTHER -> {<<22431084, 1746612311>>, <<22431117, 1746612800>>}
Periods(fork) == CASE fork = "bellatrix" -> {574, RootsKnown - 1} [] OTHER -> {FirstSummary, FirstSummary + 3}
Made(fork, h, per, pos, txs, wds, reqs, len, wrong) ==
  LET k == KindOf(fork)
  IN [fork |-> fork, n |-> h[1], ts |-> h[2], per |-> per, pos |-> pos, txs |-> txs, wds |-> IF fork = "bellatrix" THEN 0 ELSE wds,
      reqs |-> IF fork = "electra" THEN reqs ELSE 0, len |-> len, wrong |-> wrong, has |-> Has(fork),
      bidx |-> Index(k, pos), eidx |-> IF k = "hashes" THEN 0 ELSE ExecIndex(k)]
Late == Forks \ {"early"}
Early(n, len, wrong) == Made("early", <<n, 1438269988 + (n \div 2)>>, n \div Period, n % Period, 0, 0, 0, len, wrong)
Init ==
  \/ \E fork \in Late, pos \in Positions : \E h \in Point(fork), per \in Periods(fork) :
       x = Made(fork, h, per, pos, (pos + per) % 5, pos % 3, pos % 4, 0, "none")
  \/ \E fork \in Late, txs \in 0..4, wds \in 0..2, reqs \in 0..3 : \E h \in Point(fork) :
       /\ (reqs = 0 \/ fork = "electra")
       /\ x = Made(fork, h, IF fork = "bellatrix" THEN 600 ELSE FirstSummary + 1, 77, txs, wds, reqs, 0, "none")
  \/ \E fork \in Late, wrong \in {"hash", "tx"}, txs \in 1..3 : \E h \in Point(fork) :
       x = Made(fork, h, IF fork = "bellatrix" THEN 600 ELSE FirstSummary + 1, 78, txs, 1, 1, 0, wrong)
  \/ \E epoch \in {0, 1, 900}, pos \in Positions, wrong \in {"none", "hash"} : x = Early((epoch * Period) + pos, Period, wrong)
  \* the last epoch before the merge is not full
  \/ \E n \in {Merge - 1, Merge - 2, Merge - 5000}, wrong \in {"none", "hash"} : x = Early(n, Merge % Period, wrong)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
\* Where nothing is wrong, the validator's own rule accepts a proof of this shape.
Lemma == /\ KindOf(x.fork) = Era(x.n, x.ts)
         /\ (x.fork = "early" => x.pos < x.len)
         /\ Good([kind |-> KindOf(x.fork), n |-> x.n, ts |-> x.ts, per |-> x.per, pos |-> x.pos, bper |-> x.per, bidx |-> x.bidx, eidx |-> x.eidx,
                  blen |-> Depth(KindOf(x.fork)), elen |-> ExecDepth(KindOf(x.fork)), summaries |-> 40, what |-> "none", which |-> 0, wire |-> FALSE])
Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
