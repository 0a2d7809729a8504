------------------------------ MODULE CellsMC ------------------------------
(* The store as it is designed, step by step against the clauses.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Len0, MaxSteps
VARIABLES db, cfg, bad, n
Z == INSTANCE Cells
vars == <<db, cfg, bad, n>>
\* db: per key the chain place of what was put, 0 if none
View(d) == [i \in Keys |-> IF d[i] = 0 THEN 0 ELSE 1]
Init == db = [i \in Keys |-> 0] /\ cfg \in [far : [Keys -> BOOLEAN]] /\ bad = {} /\ n = 0
Did(d, e) == db' = d /\ bad' = Z!Clauses(cfg, View(db), e) /\ n' = n + 1 /\ UNCHANGED cfg
Put(k, form, own, len) ==
  LET ok == form = "proof" /\ len > 0 /\ own = len /\ ~cfg.far[k]
      d == IF ok THEN [db EXCEPT ![k] = len] ELSE db
  IN Did(d, [e |-> "put", key |-> k, form |-> form, own |-> own, len |-> len, ok |-> ok, view |-> View(d)])
Want(k) == Did(db, [e |-> "want", key |-> k, out |-> IF cfg.far[k] THEN "far" ELSE IF db[k] # 0 THEN "stored" ELSE "store"])
Restart == Did(db, [e |-> "restart", view |-> View(db)])
Next == n < MaxSteps /\
  \/ \E k \in Keys, f \in {"proof", "bare", "kind"}, l \in 0..Len0 : \E o \in 0..l : Put(k, f, o, l)
  \/ \E k \in Keys : Want(k)
  \/ Restart
Spec == Init /\ [][Next]_vars
Design == bad = {}
Kept == \A k \in Keys : db[k] # 0 => ~cfg.far[k]
=============================================================================
