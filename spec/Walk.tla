-------------------------------- MODULE Walk --------------------------------
(* A trie of keys, the nodes it consists of, and the nodes a walk over it     *)
(* yields: all of them, those that are at hand, or those of one slice.        *)
(* Keys are told apart by their first Width nibbles.                          *)
EXTENDS Integers, Sequences, FiniteSets

Width == 4
RECURSIVE Pow16(_)
Pow16(n) == IF n = 0 THEN 1 ELSE 16 * Pow16(n - 1)
RECURSIVE Value(_)
Value(p) == IF p = <<>> THEN 0 ELSE 16 * Value(SubSeq(p, 1, Len(p) - 1)) + p[Len(p)]
Prefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
Prefixes(q) == {SubSeq(q, 1, n) : n \in 0..Len(q)}

\* The trie.
Keys(cfg) == {cfg.keys[i] : i \in DOMAIN cfg.keys}
Under(K, p) == {k \in K : Prefix(p, k)}
NextNibbles(K, p) == {k[Len(p) + 1] : k \in Under(K, p)}
Branches(K) == {p \in UNION {Prefixes(SubSeq(k, 1, Width - 1)) : k \in K} : Cardinality(NextNibbles(K, p)) > 1}
Nodes(K) == IF K = {} THEN {} ELSE {<<>>} \cup Branches(K) \cup UNION {{Append(p, n) : n \in NextNibbles(K, p)} : p \in Branches(K)}
Kind(K, p) == IF p \in Branches(K) THEN "branch" ELSE IF Cardinality(Under(K, p)) = 1 THEN "leaf" ELSE "extension"
\* The nodes one passes on the way to a node, and it: they prove it.
Chain(K, p) == {q \in Nodes(K) : Prefix(q, p)}
InOrder(c) == [i \in 1..Cardinality(c) |-> CHOOSE q \in c : Cardinality({r \in c : Len(r) < Len(q)}) = i - 1]
Proof(K, p) == InOrder(Chain(K, p))
Children(K, p) == {q \in Nodes(K) : q # p /\ Prefix(p, q) /\ \A r \in Nodes(K) : (Prefix(p, r) /\ Prefix(r, q)) => r \in {p, q}}

\* Slice i of c (the first is 0) of all keys, in terms of their first Width nibbles.
PowersOfTwo == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}
First(i, c) == IF c < 2 THEN 0 ELSE (i * Pow16(Width)) \div c
Last(i, c) == IF c < 2 \/ i = c - 1 THEN Pow16(Width) - 1
              ELSE (((i + 1) * Pow16(Width)) \div c) - (IF c \in PowersOfTwo THEN 1 ELSE 0)
Overlaps(p, i, c) == LET u == Pow16(Width - Len(p)) IN Value(p) >= First(i, c) \div u /\ Value(p) <= Last(i, c) \div u

\* What a walk may enter.
AtHand(cfg, p) == \A j \in DOMAIN cfg.absent : cfg.absent[j] # p
Enters(cfg, p) == CASE cfg.mode = "slice" -> p = <<>> \/ Overlaps(p, cfg.slice, cfg.slices)
                    [] cfg.mode = "partial" -> AtHand(cfg, p)
                    [] OTHER -> TRUE
Wanted(cfg) == LET K == Keys(cfg) IN {p \in Nodes(K) : \A q \in Chain(K, p) : Enters(cfg, q)}
Refused(cfg) == cfg.mode # "partial" /\ (Keys(cfg) = {} \/ ~AtHand(cfg, <<>>))
=============================================================================
