------------------------------- MODULE Shares -------------------------------
(***************************************************************************)
(* Division of the storage capacity.  Amounts are pairs <<MB, bytes>> with  *)
(* bytes below 1 000 000, since totals do not fit the integers of TLC.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

MB == 1000000
Networks == {"beacon", "history", "state"}
Radius == {"history", "state"}            \* networks that keep radius-limited data
Weight(n) == IF n \in Radius THEN 1 ELSE 0

RECURSIVE SumW(_)
SumW(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Weight(n) + SumW(S \ {n})

Norm(p) == <<p[1] + (p[2] \div MB), p[2] % MB>>
Add(a, b) == Norm(<<a[1] + b[1], a[2] + b[2]>>)
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* The design: a share by weight, rounded down.
Share(total, S, n) ==
  LET w == SumW(S) IN
  IF w = 0 \/ Weight(n) = 0 THEN <<0, 0>> ELSE <<total \div w, ((total % w) * MB) \div w>>

RECURSIVE SumOf(_)
SumOf(seq) == IF seq = <<>> THEN <<0, 0>> ELSE Add(seq[1], SumOf(Tail(seq)))

\* got: network -> [ok, amount], one for every network.
CombinedOk(total, S, got) ==
  LET here == {n \in Networks : n \in S}
      shares == [i \in 1..3 |-> LET n == <<"beacon", "history", "state">>[i] IN
                                IF n \in S /\ got[n].ok THEN got[n].amount ELSE <<0, 0>>]
      sum == SumOf(shares)
  IN Clause("S09", \A n \in Networks : got[n].ok = (n \in S), "a network that is not enabled gets a share, or an enabled one none")
     \cup Clause("S09", Leq(sum, <<total, 0>>), "more than the total is given away")
     \cup Clause("S09", (S \cap Radius # {}) => Leq(<<total, 0>>, Add(sum, <<0, Cardinality(here)>>)), "part of the total is lost")
     \cup Clause("S09", \A n \in S \ Radius : got[n].ok => got[n].amount = <<0, 0>>, "a network without radius-limited data gets capacity")
     \cup Clause("S09", \A n \in S \cap Radius : (got[n].ok /\ total > 0) => got[n].amount # <<0, 0>>, "an enabled network gets nothing")

\* spec: network -> figure in MB, -1 for none
SpecificOk(spec, got) ==
  Clause("S09", \A n \in Networks : got[n].ok = (spec[n] >= 0), "a network without a figure gets capacity, or one with a figure an error")
  \cup Clause("S09", \A n \in Networks : (got[n].ok /\ spec[n] >= 0) => got[n].amount = <<spec[n], 0>>, "a network gets another figure than its own")
OthersOk(others) == Clause("S09", \A i \in 1..Len(others) : ~others[i], "a network that was never configured gets capacity")
=============================================================================
