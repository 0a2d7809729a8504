------------------------------- MODULE WalkMC -------------------------------
(* Walks over all small tries, node by node, in any order.                    *)
EXTENDS Walk, TLC
CONSTANTS Alphabet, Third, MaxKeys, Counts, MaxAbsent
VARIABLES cfg, todo, seen

Short == {<<a, b, c, d>> : a \in Alphabet, b \in Alphabet, c \in Third, d \in {1, 8}}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
KeySets == {K \in SUBSET Short : Cardinality(K) \in 1..MaxKeys}
Cfgs == UNION {{[mode |-> "partial", keys |-> ToSeq(K), absent |-> ToSeq(A), slice |-> 0, slices |-> 0] : A \in {B \in SUBSET Nodes(K) : Cardinality(B) <= MaxAbsent}}
               \cup {[mode |-> "slice", keys |-> ToSeq(K), absent |-> <<>>, slice |-> i, slices |-> c] : i \in {0, 1, 2, 15}, c \in Counts} : K \in KeySets}
Init == /\ cfg \in {c \in Cfgs : c.slice = 0 \/ c.slice < c.slices}
        /\ todo = (IF Enters(cfg, <<>>) THEN {<<>>} ELSE {})
        /\ seen = {}
Step == \E p \in todo : /\ seen' = seen \cup {p}
                        /\ todo' = (todo \ {p}) \cup {q \in Children(Keys(cfg), p) : Enters(cfg, q)}
                        /\ UNCHANGED cfg
Spec == Init /\ [][Step]_<<cfg, todo, seen>>

Once == todo \cap seen = {}
Complete == todo = {} => seen = Wanted(cfg)
Proved == \A p \in todo : /\ Proof(Keys(cfg), p)[1] = <<>> /\ Proof(Keys(cfg), p)[Cardinality(Chain(Keys(cfg), p))] = p
                          /\ Chain(Keys(cfg), p) \ {p} \subseteq seen
\* A child of an extension is a branch, leaves have no children, no key is without a leaf.
Shaped == LET K == Keys(cfg) IN \A p \in Nodes(K) :
            /\ Kind(K, p) = "extension" => \E q \in Branches(K) : Children(K, p) = {q}
            /\ Kind(K, p) = "leaf" => Children(K, p) = {}
            /\ Kind(K, p) = "branch" => Cardinality(Children(K, p)) > 1
\* Slices cover everything, and meet in no more than a common edge.
Covered == \A c \in Counts : \A i \in 0..(c - 2) :
             /\ First(0, c) = 0 /\ Last(c - 1, c) = Pow16(Width) - 1
             /\ First(i + 1, c) \in {Last(i, c), Last(i, c) + 1}
ASSUME Covered
=============================================================================
