------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Right-sparse Merkle trees with symbolic hashes: a hash is the term it    *)
(* was computed from.  <<"l", k>> is a leaf, <<"z", d>> the root of a       *)
(* subtree of depth d without leaves (<<"z", 0>> also is the zero leaf),    *)
(* <<"n", a, b>> the hash of two others.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

H(a, b) == IF a[1] = "z" /\ b[1] = "z" /\ a[2] = b[2] THEN <<"z", a[2] + 1>> ELSE <<"n", a, b>>
Leaf(k) == IF k = 0 THEN <<"z", 0>> ELSE <<"l", k>>

RECURSIVE Pow(_)
Pow(d) == IF d = 0 THEN 1 ELSE 2 * Pow(d - 1)
Capacity(d) == Pow(IF d > 12 THEN 12 ELSE d)      \* more leaves than that are never used here
Fits(n, d) == n <= Capacity(d)

\* What the root means: the hash of the complete tree, absent leaves being zero.
RECURSIVE Root(_, _)
Root(leaves, d) ==
  IF leaves = <<>> THEN <<"z", d>>
  ELSE IF d = 0 THEN Leaf(leaves[1])
  ELSE IF Fits(Len(leaves), d - 1) THEN H(Root(leaves, d - 1), <<"z", d - 1>>)
  ELSE LET c == Capacity(d - 1) IN H(Root(SubSeq(leaves, 1, c), d - 1), Root(SubSeq(leaves, c + 1, Len(leaves)), d - 1))

\* The siblings on the way from leaf i (counted from 0) to the root, bottom-up.
RECURSIVE Siblings(_, _, _)
Siblings(leaves, i, d) ==
  IF d = 0 THEN <<>>
  ELSE LET c == Capacity(d - 1)
           n == Len(leaves)
           left == SubSeq(leaves, 1, IF n < c THEN n ELSE c)
           right == SubSeq(leaves, c + 1, n)
       IN IF i < c THEN Append(Siblings(left, i, d - 1), Root(right, d - 1))
          ELSE Append(Siblings(right, i - c, d - 1), Root(left, d - 1))

RECURSIVE Fold(_, _, _)
Fold(h, branch, i) ==
  IF branch = <<>> THEN h
  ELSE Fold(IF i % 2 = 1 THEN H(branch[1], h) ELSE H(h, branch[1]), Tail(branch), i \div 2)

Verifies(leaf, branch, depth, i, root) == Len(branch) = depth /\ Fold(leaf, branch, i) = root

-----------------------------------------------------------------------------
(* The tree as the code builds it: <<"Z", d>>, <<"L", h>>, <<"F", h>> for a  *)
(* finalized subtree, <<"N", h, left, right>>.                               *)

HashOf(t) == CASE t[1] = "Z" -> <<"z", t[2]>> [] OTHER -> t[2]
Node(l, r) == <<"N", H(HashOf(l), HashOf(r)), l, r>>

RECURSIVE Create(_, _)
Create(leaves, d) ==
  IF leaves = <<>> THEN <<"Z", d>>
  ELSE IF d = 0 THEN <<"L", Leaf(leaves[1])>>
  ELSE LET c == Capacity(d - 1)
           n == Len(leaves)
       IN Node(Create(SubSeq(leaves, 1, IF n < c THEN n ELSE c), d - 1), Create(SubSeq(leaves, c + 1, n), d - 1))

Full == <<"full">>
RECURSIVE PushLeaf(_, _, _)
PushLeaf(t, k, d) ==
  CASE t[1] = "Z" -> Create(<<k>>, d)
    [] t[1] = "N" ->
       LET l == t[3]
           r == t[4]
       IN CASE l[1] \in {"L", "F"} /\ r[1] = "L" -> Full
            [] l[1] \in {"N", "F"} /\ r[1] = "N" -> LET x == PushLeaf(r, k, d - 1) IN IF x = Full THEN Full ELSE Node(l, x)
            [] l[1] \in {"L", "F"} /\ r[1] = "Z" -> Node(l, Create(<<k>>, d - 1))
            [] l[1] = "N" /\ r[1] = "Z" -> LET x == PushLeaf(l, k, d - 1) IN
                                           IF x = Full THEN Node(l, Create(<<k>>, d - 1)) ELSE Node(x, r)
            [] OTHER -> Full
    [] OTHER -> Full

\* The first n leaves become unchangeable.
RECURSIVE Finalize(_, _, _)
Finalize(t, n, d) ==
  CASE t[1] = "F" -> t
    [] t[1] = "L" -> <<"F", t[2]>>
    [] t[1] = "N" ->
       IF Capacity(d) <= n THEN <<"F", t[2]>>
       ELSE LET c == Capacity(d - 1)
                l == Finalize(t[3], n, d - 1)
            IN <<"N", t[2], l, IF n > c THEN Finalize(t[4], n - c, d - 1) ELSE t[4]>>

-----------------------------------------------------------------------------
(* Properties: s = [leaves, d, fin], e an event with what was observed.      *)

StepOk(s, e) ==
  CASE e.e = "create" -> Clause("V03", e.root = Root(s.leaves, s.d), "bulk creation yields another root")
    [] e.e = "push" ->
         Clause("V03", e.ok = (Len(s.leaves) < Capacity(s.d)), "a leaf is refused with room left, or taken without")
         \cup Clause("V03", e.root = Root(IF e.ok THEN Append(s.leaves, e.k) ELSE s.leaves, s.d), "adding a leaf yields another root")
    [] e.e = "finalize" ->
         Clause("V03", e.ok, "finalising existing leaves fails")
         \cup Clause("V03", e.root = Root(s.leaves, s.d), "finalising changes the root")
    [] e.e = "snapshot" ->
         Clause("V03", e.ok /\ e.root = Root(SubSeq(s.leaves, 1, s.fin), s.d), "a tree made from a finalised one has another root")
    [] e.e = "proof" ->
         Clause("V03", e.i >= s.fin => e.ok, "no branch for a leaf")
         \cup Clause("V03", e.ok => (e.leaf = Leaf(s.leaves[e.i + 1]) /\ e.branch = Siblings(s.leaves, e.i, s.d)),
                     "the branch or leaf of a proof is wrong")
    [] e.e = "verify" ->
         Clause("V03", e.res = Verifies(e.leaf, e.branch, e.depth, e.i, e.root), "a wrong proof verifies or a right one does not")
=============================================================================
