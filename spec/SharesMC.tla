------------------------------ MODULE SharesMC ------------------------------
EXTENDS Shares, Json, IOUtils
CONSTANTS Totals
VARIABLE x
Init == \/ \E t \in Totals, S \in SUBSET Networks : x = [op |-> "combined", total |-> t, nets |-> S, spec |-> [n \in Networks |-> -1]]
        \/ \E s \in [Networks -> Totals \cup {-1}] : x = [op |-> "specific", total |-> 0, nets |-> {}, spec |-> s]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Lemma == x.op = "combined" =>
           CombinedOk(x.total, x.nets, [n \in Networks |-> [ok |-> n \in x.nets, amount |-> Share(x.total, x.nets, n)]]) = {}
Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
