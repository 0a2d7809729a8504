----------------------------- MODULE VersionsMC -----------------------------
EXTENDS Versions, Json, IOUtils
CONSTANTS Local, Remote, MaxLen
VARIABLE x
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \E l \in Seqs(Local, MaxLen) :
          x \in {[local |-> l, other |-> o] :
                   o \in {[how |-> "list", list |-> r] : r \in Seqs(Remote, MaxLen)}
                         \cup {[how |-> h, list |-> <<>>] : h \in {"none", "bad"}}}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
\* Whoever negotiates, the result is the same, is supported by both, and nothing newer is.
Lemma == LET A == Range(x.local)
             B == Announced(x.other)
             v == Common(A, B)
         IN /\ Common(B, A) = v
            /\ v # NoVersion => (v \in A /\ v \in B /\ \A w \in A \cap B : w <= v)
            /\ v = NoVersion <=> A \cap B = {}
Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
