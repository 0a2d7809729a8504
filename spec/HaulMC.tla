------------------------------- MODULE HaulMC -------------------------------
(* All orders in which the offers of a few blocks can begin and end.         *)
EXTENDS Haul, TLC
CONSTANTS Blocks, Limit, MaxTime
VARIABLES m, now, order

C == [blocks |-> [b \in 1..Blocks |-> [n |-> 8191 + b, fault |-> IF b = 3 THEN "body" ELSE ""]], start |-> 8192, end |-> 0, first |-> 1, last |-> 1,
      limit |-> Limit, cp |-> <<<<1>>, <<>>, <<1>>, <<1, 2>>, <<2>>>>, ans |-> <<"ok">>]
Init == m = Start(C) /\ now = 0 /\ order = <<>>
Step == \/ \E o \in All(C) : CanBegin(C, m, o, now) /\ m' = Begin(m, o) /\ order' = (IF o[2] = "number" THEN order ELSE Append(order, o)) /\ UNCHANGED now
        \/ \E o \in m.active : m' = End(m, o, now) /\ UNCHANGED <<now, order>>
        \/ now < MaxTime /\ now' = now + 1000 /\ UNCHANGED <<m, order>>
Spec == Init /\ [][Step]_<<m, now, order>>

Bounded == Cardinality(m.active) <= Limit
Sound == m.active \cup m.over \subseteq All(C) /\ \A o \in All(C) : C.blocks[o[1]].fault = ""
\* A body or its receipts never come before an offer of their header.
Ordered == \A i, j \in DOMAIN order : (i < j /\ order[i][1] = order[j][1] /\ order[j][2] = "hash") => order[i][2] = "hash"
\* Something can always be done until all is offered.
Lively == Finished(C, m) \/ m.active # {} \/ now < MaxTime \/ (\E o \in All(C) : CanBegin(C, m, o, now)) \/ (\E b \in Wanted(C) : m.at[b] + Delay > MaxTime)
=============================================================================
