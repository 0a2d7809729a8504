------------------------------- MODULE Trie -------------------------------
(***************************************************************************)
(* State content and its proofs.  A case names nodes by their place in a    *)
(* list; a node refers only to earlier ones, either by hash or by holding   *)
(* it.  cls[i] is the first place with the same bytes, so two nodes have    *)
(* the same hash exactly when their classes are equal; place 0 stands for a *)
(* hash that no node has.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
From(q, i) == SubSeq(q, i, Len(q))
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

NoVal == [t |-> "none", root |-> 0, code |-> 0, m |-> 0]
Dead == [t |-> "dead", i |-> 0, rest |-> <<>>, val |-> NoVal]
Value(v) == [t |-> "value", i |-> 0, rest |-> <<>>, val |-> v]
Step(i, rest) == [t |-> "node", i |-> i, rest |-> rest, val |-> NoVal]

Cls(c, i) == IF i = 0 THEN 0 ELSE c.cls[i]
Same(c, i, j) == i # 0 /\ j # 0 /\ c.cls[i] = c.cls[j]
Child(n, x) == {d.r : d \in {n.ch[j] : j \in {k \in 1..Len(n.ch) : n.ch[k].n = x}}}

\* Where a path leads from node i: to a value, to a node named by hash (with the rest of the path), or nowhere.
RECURSIVE Walk(_, _, _), Follow(_, _, _)
Follow(c, r, path) ==
  CASE r.r = "in" -> Walk(c, r.i, path)
    [] r.r = "hash" -> Step(r.i, path)
    [] OTHER -> Step(0, path)
Walk(c, i, path) ==
  LET n == c.nodes[i] IN
  CASE n.k = "leaf" -> IF n.key = path THEN Value(n.val) ELSE Dead
    [] n.k = "ext" -> IF n.key # <<>> /\ Prefix(n.key, path) THEN Follow(c, n.ch[1].r, From(path, Len(n.key) + 1)) ELSE Dead
    [] n.k = "branch" -> IF path = <<>> THEN (IF n.val.t = "none" THEN Dead ELSE Value(n.val))
                         ELSE IF Child(n, path[1]) = {} THEN Dead
                         ELSE Follow(c, CHOOSE r \in Child(n, path[1]) : TRUE, From(path, 2))
    [] OTHER -> Dead

\* What a chain of nodes leaves of the path, or that it is broken.
RECURSIVE Chain(_, _, _)
Chain(c, proof, path) ==
  IF Len(proof) = 1 THEN [ok |-> TRUE, last |-> proof[1], rest |-> path]
  ELSE LET w == Walk(c, proof[1], path) IN
       IF w.t = "node" /\ Same(c, w.i, proof[2]) THEN Chain(c, From(proof, 2), w.rest)
       ELSE [ok |-> FALSE, last |-> 0, rest |-> path]

NodeOk(c, proof, path, want) ==
  /\ proof # <<>>
  /\ LET r == Chain(c, proof, path) IN r.ok /\ r.rest = <<>> /\ Same(c, r.last, want)
AccountOf(c) ==
  IF c.aproof = <<>> THEN NoVal
  ELSE LET r == Chain(c, c.aproof, c.addr) IN
       IF ~r.ok THEN NoVal
       ELSE LET w == Walk(c, r.last, r.rest) IN
            IF w.t = "value" /\ w.val.t = "acct" THEN w.val ELSE NoVal

Right(c) ==
  CASE c.form = "bare" -> IF c.kind = "code" THEN c.code = c.wantcode ELSE c.proof # <<>> /\ Same(c, c.proof[Len(c.proof)], c.want)
    [] c.form # "proof" -> FALSE
    [] c.kind = "account" -> NodeOk(c, c.proof, c.path, c.want)
    [] c.kind = "storage" -> /\ AccountOf(c).t = "acct" /\ c.proof # <<>> /\ Same(c, AccountOf(c).root, c.proof[1])
                             /\ NodeOk(c, c.proof, c.path, c.want)
    [] OTHER -> c.code = c.wantcode /\ AccountOf(c).t = "acct" /\ AccountOf(c).code = c.wantcode

Judged(c, out) ==
  Clause("V04", Right(c) => out # "invalid", "content with a right chain is rejected")
  \cup Clause("V04", ~Right(c) => out = "invalid", "content without a right chain is accepted")
  \cup Clause("V04", (c.form = "bare") => out # "canonical", "content without a chain passes as an offer")
  \cup Clause("V04", (c.form = "proof" /\ Right(c)) => out = "canonical", "a right offer does not pass as an offer")
=============================================================================
