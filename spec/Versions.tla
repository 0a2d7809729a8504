------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* Negotiation of the protocol version.  A node is configured with a list   *)
(* of versions and announces it; a peer announces a list, nothing ("none"), *)
(* or something unreadable ("bad").                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

Original == 0
Defined == 0..2                    \* versions that this node knows at all

Range(s) == {s[i] : i \in 1..Len(s)}
Proper(l) == Range(l) \subseteq Defined /\ \A i \in 1..Len(l) - 1 : l[i] < l[i + 1]

SetMax(S) == CHOOSE v \in S : \A w \in S : w <= v
NoVersion == -1
Common(A, B) == IF A \cap B = {} THEN NoVersion ELSE SetMax(A \cap B)

Announced(o) == IF o.how = "none" THEN {Original} ELSE Range(o.list)

\* e: made (the configuration was accepted), res (version or -1), and for a peer that could be
\* configured with its own list: back, what the peer negotiates with us (-2: not asked).
NegotiationOk(local, other, e) ==
  LET sane == e.made /\ Proper(local)
      foreign == other.how = "none" /\ Original \notin Range(local) /\ e.res = Original IN
  Clause("W02", Proper(local) => e.made, "a proper list of versions is refused")
  \cup Clause("W02", e.made => Proper(local), "an unordered or unknown list of versions is taken")
  \cup Clause("W02", sane => ~foreign,
              "the original version is spoken to a peer that announces none, although this node does not support it")
  \cup Clause("W02", (sane /\ other.how # "bad" /\ ~foreign) => e.res = Common(Range(local), Announced(other)),
              "the negotiated version is not the newest shared one")
  \cup Clause("W02", (e.made /\ other.how = "bad") => e.res = NoVersion, "a version is read from an unreadable announcement")
  \cup Clause("W02", (sane /\ e.back # -2) => e.back = e.res, "both sides reach different results")
=============================================================================
