------------------------------ MODULE MerkleMC ------------------------------
(* Every way to fill and finalise a small tree.                              *)
EXTENDS Merkle, Json, IOUtils
CONSTANTS Depths, Values, Record, Depth, MaxStart
VARIABLES s, t, hist
vars == <<s, t, hist>>
Log(op) == hist' = IF Record THEN Append(hist, op) ELSE hist

Starts(d) == UNION {[1..n -> Values] : n \in 0..(IF MaxStart < Capacity(d) THEN MaxStart ELSE Capacity(d))}
Init == \E d \in Depths : \E l \in Starts(d) :
          /\ s = [leaves |-> l, d |-> d, fin |-> 0]
          /\ t = Create(l, d)
          /\ hist = IF Record THEN <<[op |-> "init", d |-> d, leaves |-> l]>> ELSE <<>>
Push == \E k \in Values :
          LET x == PushLeaf(t, k, s.d) IN
          /\ Log([op |-> "push", k |-> k])
          /\ IF x = Full THEN UNCHANGED <<s, t>>
             ELSE /\ t' = x
                  /\ s' = [s EXCEPT !.leaves = Append(@, k)]
DoFinalize == \E n \in 1..Len(s.leaves) :
          /\ t' = Finalize(t, n, s.d)
          /\ s' = [s EXCEPT !.fin = IF @ < n THEN n ELSE @]
          /\ Log([op |-> "finalize", n |-> n])
Probe == Record /\ UNCHANGED <<s, t>> /\ \E i \in s.fin..Len(s.leaves) - 1 : Log([op |-> "proof", i |-> i])
Snap == Record /\ s.fin > 0 /\ UNCHANGED <<s, t>> /\ Log([op |-> "snapshot"])
Next == Push \/ DoFinalize \/ Probe \/ Snap
Spec == Init /\ [][Next]_vars

RootRight == HashOf(t) = Root(s.leaves, s.d)
\* Room is never lost, also not by finalising.
RoomRight == (PushLeaf(t, 1, s.d) = Full) <=> Len(s.leaves) >= Capacity(s.d)
\* Branches verify, and for other leaves, positions and roots only where the tree really is the same.
ProofsRight == \A i \in 0..Len(s.leaves) - 1 :
  LET b == Siblings(s.leaves, i, s.d)
      root == Root(s.leaves, s.d)
      at(j) == IF j < Len(s.leaves) THEN s.leaves[j + 1] ELSE 0
  IN /\ Verifies(Leaf(s.leaves[i + 1]), b, s.d, i, root)
     /\ \A k \in Values : Verifies(Leaf(k), b, s.d, i, root) => k = s.leaves[i + 1]
     /\ \A j \in 0..Capacity(s.d) - 1 : Verifies(Leaf(s.leaves[i + 1]), b, s.d, j, root) => at(j) = s.leaves[i + 1]

Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
