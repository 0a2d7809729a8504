-------------------------------- MODULE Feed --------------------------------
(* The bridge that offers what the beacon chain has to say.  Once in every   *)
(* slot it looks at five sources of a node, any of which may fail to answer, *)
(* and offers what is new to the peers the census chose:                     *)
(*   optimistic  the latest optimistic update, under its signature slot      *)
(*   finality    the latest finality update, if it finalizes a later slot    *)
(*   update      the update of the present period, once, and not while its   *)
(*               finalized header lies in another period                     *)
(*   summaries   the summaries of the finalized state, when it is a new one  *)
(*   boot        the bootstrap of the finalized block, when it is a new one, *)
(*               two slots after it was seen, so that the finality update    *)
(*               is there before it                                          *)
(* What could not be got is tried again in the slots that follow.            *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"optimistic", "finality", "update", "summaries", "boot"}
\* opt, fin, sum, done: the last one offered; busy, age: the finalized block whose bootstrap waits, and for how many slots
Start == [opt |-> 0, fin |-> 0, upd |-> FALSE, sum |-> 0, done |-> 0, busy |-> 0, age |-> 0]

Ready(m) == m.busy # 0 /\ m.age = 1
NewFinality(m, e) == e.fin > m.fin
NewUpdate(m, e) == ~m.upd /\ e.upd = "now"
NewSummaries(m, e) == e.sroot # 0 /\ e.sroot # m.sum /\ e.states = 1
NewBoot(m, e) == Ready(m) /\ e.boots = 1

\* What has to be offered in a slot.
Must(m, e) ==
  (IF e.opt # 0 /\ e.opt # m.opt THEN {<<"optimistic", e.opt>>} ELSE {}) \cup (IF NewFinality(m, e) THEN {<<"finality", e.fin>>} ELSE {})
    \cup (IF NewUpdate(m, e) THEN {<<"update", 0>>} ELSE {}) \cup (IF NewSummaries(m, e) THEN {<<"summaries", e.sroot>>} ELSE {})
    \cup (IF NewBoot(m, e) THEN {<<"boot", m.busy>>} ELSE {})
\* A slot without a block leaves the optimistic update as it was; it may be offered again.
May(m, e) == Must(m, e) \cup (IF e.opt # 0 THEN {<<"optimistic", e.opt>>} ELSE {})

\* The wait of a bootstrap ends when the next slot begins: whether that slot already
\* starts the next wait is left open.
Boots(m, e) ==
  LET done == IF NewBoot(m, e) THEN m.busy ELSE m.done
      idle == [busy |-> 0, age |-> 0, done |-> done]
      begun == [busy |-> e.froot, age |-> 0, done |-> done]
      new == e.froot # 0 /\ e.froot # done
  IN IF m.busy # 0 /\ ~Ready(m) THEN {[busy |-> m.busy, age |-> m.age + 1, done |-> m.done]}
     ELSE IF m.busy # 0 THEN IF new THEN {idle, begun} ELSE {idle}
     ELSE IF new THEN {begun} ELSE {idle}
Steps(m, e) ==
  {[opt |-> IF e.opt # 0 THEN e.opt ELSE m.opt, fin |-> IF NewFinality(m, e) THEN e.fin ELSE m.fin, upd |-> m.upd \/ NewUpdate(m, e),
    sum |-> IF NewSummaries(m, e) THEN e.sroot ELSE m.sum, done |-> b.done, busy |-> b.busy, age |-> b.age] : b \in Boots(m, e)}
=============================================================================
