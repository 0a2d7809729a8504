------------------------------ MODULE TrieMC ------------------------------
(***************************************************************************)
(* The walk along a chain against what it is meant to decide: that the path *)
(* can be cut into pieces, each of them a way from one node of the chain to *)
(* the next.  Every small trie, chain and path is a state.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Nib, MaxKey, MaxPath, MaxNodes
VARIABLES c
T == INSTANCE Trie
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Node(k, key, ch, v) == [k |-> k, key |-> key, ch |-> ch, val |-> [t |-> v, root |-> 0, code |-> 0]]
Ref(r, i) == [r |-> r, i |-> i]
Refs(i) == {Ref("stray", 1)} \cup {Ref("hash", j) : j \in 1..(i - 1)} \cup {Ref("in", j) : j \in 1..(i - 1)}
Kids(i) == {<<>>} \cup {<<[n |-> x, r |-> r]>> : x \in Nib, r \in Refs(i)}
           \cup {<<[n |-> 0, r |-> r], [n |-> 1, r |-> q]>> : r \in Refs(i), q \in Refs(i)}
Nodes(i) == {Node("leaf", k, <<>>, "acct") : k \in Seqs(Nib, MaxKey)}
            \cup (IF i = 1 THEN {} ELSE {Node("ext", k, <<[n |-> 0, r |-> r]>>, "none") : k \in Seqs(Nib, MaxKey), r \in Refs(i)})
            \cup {Node("branch", <<>>, h, v) : h \in Kids(i), v \in {"none", "acct"}}
            \cup {Node("junk", <<1>>, <<>>, "none")}

\* The ways out of a node, straight from the meaning of the node kinds: <<piece of path, node named by hash (0: one not listed)>>.
RECURSIVE Ways(_, _), Through(_, _)
Through(nodes, r) == CASE r.r = "in" -> Ways(nodes, r.i) [] r.r = "hash" -> {<< <<>>, r.i>>} [] OTHER -> {<< <<>>, 0>>}
Ways(nodes, i) ==
  LET n == nodes[i] IN
  CASE n.k = "ext" /\ n.key # <<>> -> {<<n.key \o w[1], w[2]>> : w \in Through(nodes, n.ch[1].r)}
    [] n.k = "branch" -> UNION {{<< <<n.ch[j].n>> \o w[1], w[2]>> : w \in Through(nodes, n.ch[j].r)} : j \in 1..Len(n.ch)}
    [] OTHER -> {}
RECURSIVE Cuts(_, _, _)
Cuts(nodes, proof, path) ==
  IF Len(proof) = 1 THEN path = <<>>
  ELSE \E w \in Ways(nodes, proof[1]) : w[2] = proof[2] /\ T!Prefix(w[1], path) /\ Cuts(nodes, T!From(proof, 2), T!From(path, Len(w[1]) + 1))

Proofs(k) == Seqs(1..k, k)
Case(ns, pr, pa, w) == [kind |-> "account", form |-> "proof", nodes |-> ns, cls |-> [i \in DOMAIN ns |-> i], proof |-> pr, aproof |-> pr, path |-> pa, addr |-> pa,
                        want |-> w, code |-> 0, wantcode |-> 0]
Init == c = <<>>
Next ==
  \/ c = <<>> /\ \E n \in Nodes(1) : c' = <<n>>
  \/ DOMAIN c = 1..Len(c) /\ Len(c) \in 1..(MaxNodes - 1) /\ \E n \in Nodes(Len(c) + 1) \ {c[j] : j \in 1..Len(c)} : c' = Append(c, n)
Spec == Init /\ [][Next]_c
Done == c # <<>>
\* for the nodes in c: over all chains and paths
Meaning == Done => \A pr \in Proofs(Len(c)), pa \in Seqs(Nib, MaxPath) :
  \A w \in 0..Len(c) :
    T!NodeOk(Case(c, pr, pa, w), pr, pa, w) <=> (pr # <<>> /\ w # 0 /\ pr[Len(pr)] = w /\ Cuts(c, pr, pa))
\* A root and a path name one chain only.
Unique == Done => \A pa \in Seqs(Nib, MaxPath) : \A i \in 1..Len(c) :
  Cardinality({pr \in Proofs(Len(c)) : pr # <<>> /\ pr[1] = i /\ Cuts(c, pr, pa)}) <= 1
\* Code is right only for the account the chain leads to: a chain that ends on the way is not.
Account == Done => \A pr \in Proofs(Len(c)), pa \in Seqs(Nib, MaxPath) :
  T!AccountOf(Case(c, pr, pa, 0)).t = "acct" =>
    \E i \in 1..Len(c), k \in 0..Len(pa) : c[i].val.t = "acct" /\ pr # <<>> /\ Cuts(c, pr, SubSeq(pa, 1, k))
=============================================================================
