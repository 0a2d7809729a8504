----------------------------- MODULE MerkleTrace -----------------------------
EXTENDS Merkle, TraceBase
MInit(cfg) == [leaves |-> cfg.leaves, d |-> cfg.d, fin |-> 0]
MStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE {[s |-> CASE e.e = "push" /\ e.ok -> [p EXCEPT !.leaves = Append(@, e.k)]
                 [] e.e = "finalize" /\ e.ok -> [p EXCEPT !.fin = IF @ < e.n THEN e.n ELSE @]
                 [] OTHER -> p,
         bad |-> StepOk(p, e)]}
=============================================================================
