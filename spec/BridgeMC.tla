------------------------------ MODULE BridgeMC ------------------------------
(* All short histories of announcements on a small tree of blocks, with a    *)
(* bridge that keeps blocks and receipts by the block they belong to.        *)
EXTENDS Bridge

CONSTANTS MaxSteps, Skew
VARIABLES m, kept, rec, bad, sent, n

vars == <<m, kept, rec, bad, sent, n>>
\* 1 - 2 - 3 - 4 - 5, and 6 beside 4; the period ends with 3.
C == [par |-> <<0, 1, 2, 3, 4, 3>>, slot |-> <<97, 98, 99, 100, 101, 102>>, buf |-> 3, hl |-> 2, nl |-> 1]
Blocks == DOMAIN C.par
Height(b) == Len(Whole(C, b))
\* What the execution node answers: the block of this height on the chain it follows, 0 if it has none.
Asked(view, b) == LET S == {x \in Range(Whole(C, view)) : Height(x) = Height(b)} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE

RECURSIVE Walk(_, _, _, _, _, _)
\* [kept, given] after going back from b
Walk(b, k, view, miss, K, G) ==
  IF b = 0 \/ k = 0 THEN [kept |-> K, given |-> G]
  ELSE IF b \in K THEN Walk(C.par[b], k - 1, view, miss, K, G)
  ELSE IF b \in miss THEN [kept |-> K, given |-> G]
  ELSE IF Asked(view, b) # b THEN [kept |-> K, given |-> Append(G, b)]
  ELSE Walk(C.par[b], k - 1, view, miss, K \cup {b}, Append(G, b))

Base == [e |-> "", b |-> 1, view |-> 1, miss |-> <<>>, epoch |-> 5, rp |-> <<1, 2>>, cp |-> <<2>>, ans |-> <<"ok", "failed">>,
         given |-> <<>>, series |-> <<>>, offers |-> <<>>, gap |-> 2000, told |-> <<>>, hm |-> 0, nm |-> 0, open |-> 0]
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o List(S \ {x})
Single(kinds, ids) == List({[p |-> 2, x |-> [kind |-> k, id |-> i, ok |-> rec[i] = i]] : k \in kinds, i \in ids})
Tell(q) == IF q = <<>> THEN <<>> ELSE <<[p |-> 2, out |-> "failed", n |-> Len(q)]>>
See(e, K, out) == /\ bad' = bad \cup Clauses(C, m, e)
                  /\ m' = Next(C, m, e)
                  /\ kept' = K
                  /\ sent' = out
                  /\ n' = n + 1
Announce == \E b \in Blocks, view \in Blocks, miss \in {{}} \cup {{x} : x \in {2, 4}} :
          /\ (~Skew => view = b)
          /\ LET w == Walk(b, C.buf, view, miss, kept, <<>>)
             IN /\ See([Base EXCEPT !.e = "head", !.b = b, !.view = view, !.miss = List(miss), !.given = w.given], w.kept, {})
                /\ rec' = [x \in Blocks |-> IF x \in w.kept \ kept THEN Asked(view, x) ELSE rec[x]]
Attest == \E b \in Blocks :
            LET q == Chain(C, b, C.buf)
                go == Complete(C, b, kept)
                o == IF go THEN Single({"body", "receipts"}, Range(q)) ELSE <<>>
            IN /\ See([Base EXCEPT !.e = "update", !.b = b, !.series = IF go THEN <<[p |-> 1, x |-> Headers(q)], [p |-> 2, x |-> Headers(q)]>> ELSE <<>>,
                                   !.offers = o, !.told = Tell(o), !.hm = IF go THEN 2 ELSE 0], kept, {})
               /\ UNCHANGED rec
Settle == \E b \in Blocks, epoch \in {4, 5} :
            /\ C.slot[b] <= End
            /\ LET A == IF epoch = 5 THEN Ancestors(C, b, kept) ELSE {}
                   o == Single({"hash", "number"}, A)
               IN See([Base EXCEPT !.e = "final", !.b = b, !.epoch = epoch, !.offers = o, !.told = Tell(o), !.nm = IF A = {} THEN 0 ELSE 1],
                      IF epoch = 5 /\ b \in kept THEN kept \ Below(C, kept) ELSE kept, A)
            /\ UNCHANGED rec
Init == m = Start /\ kept = {} /\ rec = [x \in Blocks |-> 0] /\ bad = {} /\ sent = {} /\ n = 0
Step == n < MaxSteps /\ (Announce \/ Attest \/ Settle)
Spec == Init /\ [][Step]_vars

Quiet == bad = {}
\* What the bridge must have it has, and nothing that it was not given.
Exact == m.must \subseteq kept /\ kept \subseteq m.may
Paired == \A x \in kept : rec[x] = x
\* What is offered with a proof belongs to the period, and is not kept for a second time.
Proven == sent \subseteq Below(C, Blocks) /\ sent \cap kept = {}
=============================================================================
