----------------------------- MODULE HeadersMC -----------------------------
EXTENDS Headers, Bitwise, Json, IOUtils
CONSTANTS Positions, Sums
VARIABLE x

\* Headers on both sides of every border.
Points == {<<0, 1438269988>>, <<8191, 1438369988>>, <<8192, 1438369998>>, <<Merge - 1, 1663224162>>,
           <<Merge, 1663224179>>, <<17034869, Shanghai - 1>>, <<17034870, Shanghai>>, <<19426586, Cancun - 1>>,
           <<19426587, Cancun>>, <<22431084, 1746612311>>, <<Merge, Shanghai>>, <<Merge, Cancun>>, <<2000000000, 2000000000>>}
Periods(k) == CASE k = "roots" -> {0, 574, RootsKnown - 1, RootsKnown, RootsKnown + 1, -1}
                [] OTHER -> {0, FirstSummary - 1, FirstSummary, FirstSummary + 1, FirstSummary + Sums - 1, FirstSummary + Sums, -1}

Made(n, ts, k, per, pos, w) ==
  [n |-> n, ts |-> ts, kind |-> k, per |-> per, pos |-> pos, bper |-> per, bidx |-> Index(k, pos), eidx |-> ExecIndex(k),
   blen |-> Depth(k), elen |-> ExecDepth(k), summaries |-> Sums, what |-> "none", which |-> 0, wire |-> w]
\* A proper proof of each kind for each header; for hashes the place follows from the number.
Proper(w) == UNION {
  {Made(h[1], h[2], "hashes", h[1] \div Period, h[1] % Period, w) : h \in Points}
  \cup {Made(h[1], h[2], k, per, pos, w) : h \in Points, k \in Kinds \ {"hashes"}, per \in {574, RootsKnown - 1, FirstSummary, FirstSummary + 3}, pos \in {0, 4097}}}
Flip(i, b) == i ^^ (2 ^ b)
\* Starting points for changes: the kind fits.
Fitting(w) == UNION {
  {Made(h[1], h[2], "hashes", h[1] \div Period, h[1] % Period, w) : h \in {p \in Points : Era(p[1], p[2]) = "hashes"}}
  \cup UNION {{Made(h[1], h[2], k, per, pos, w) : h \in {p \in Points : Era(p[1], p[2]) = k}, per \in Periods(k), pos \in Positions} : k \in Kinds \ {"hashes"}}}
Few(w) == {y \in Fitting(w) : y.kind = "hashes" \/ (y.pos \in {0, 4095} /\ y.per = (IF y.kind = "roots" THEN RootsKnown - 1 ELSE FirstSummary + 1))}

Init ==
  \E w \in BOOLEAN :
    \/ x \in Proper(w)
    \/ x \in Fitting(w)
    \* folded somewhere else
    \/ \E y \in Few(w), b \in 0..14 : b < y.blen /\ x = [y EXCEPT !.bidx = Flip(@, b)]
    \/ \E y \in Few(w), b \in 0..11 : b < y.elen /\ x = [y EXCEPT !.eidx = Flip(@, b)]
    \/ \E y \in Few(w) : y.kind # "hashes" /\ x = [y EXCEPT !.eidx = ExecIndex(IF y.kind = "deneb" THEN "capella" ELSE "deneb")]
    \* the root of a neighbouring period
    \/ \E y \in Few(w), d \in {-1, 1} : y.bper + d >= 0 /\ x = [y EXCEPT !.bper = @ + d]
    \* another slot claimed afterwards
    \/ \E y \in Few(w), d \in {-1, 1, 2, 4096} : y.kind # "hashes" /\ y.pos + d \in 0..Period - 1 /\ x = [y EXCEPT !.pos = @ + d]
    \/ \E y \in Few(w), q \in Periods("roots") \cup Periods("capella") : y.kind # "hashes" /\ q # y.per /\ x = [y EXCEPT !.per = q]
    \* something changed afterwards
    \/ \E y \in Few(w), i \in 0..14 : i < y.blen /\ x = [y EXCEPT !.what = "beacon", !.which = i]
    \/ \E y \in Few(w), i \in 0..11 : i < y.elen /\ x = [y EXCEPT !.what = "exec", !.which = i]
    \/ \E y \in Few(w), i \in 0..7 : x = [y EXCEPT !.what = "header", !.which = i]
    \/ \E y \in Few(w), i \in {0, 31} : y.kind # "hashes" /\ x = [y EXCEPT !.what = "root", !.which = i]
    \/ \E y \in Few(w), i \in {0, 31} : x = [y EXCEPT !.what = "trusted", !.which = i]
    \/ \E y \in Few(w) : y.kind \in {"capella", "deneb"} /\ x = [y EXCEPT !.what = "state"]
    \/ \E y \in Few(TRUE), i \in {1, 8, 32} : x = [y EXCEPT !.what = "cut", !.which = i]
    \/ \E y \in Few(TRUE), i \in {1, 8, 32, 600} : x = [y EXCEPT !.what = "long", !.which = i]
    \/ \E y \in Few(TRUE), i \in 0..9 : x = [y EXCEPT !.what = "byte", !.which = i]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

\* The layout gives the generalized indices of the consensus specification (less the leading bit), and a proof
\* with exactly one thing wrong is never good.
Lemma == /\ ExecIndex("capella") + 2 ^ 11 = 3228 /\ ExecIndex("deneb") + 2 ^ 12 = 6444
         /\ x.bidx < 2 ^ x.blen /\ (x.kind = "deneb" => x.eidx < 2 ^ x.elen)
         /\ (x.what # "none" => ~Good(x))
         /\ ((x.kind \in {"capella", "deneb"} /\ x.per < FirstSummary) => ~Good(x))
Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
