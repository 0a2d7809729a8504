------------------------------- MODULE FeedMC -------------------------------
(* Every short history of a node that moves on or does not, and answers or   *)
(* does not.                                                                 *)
EXTENDS Feed, TLC
CONSTANTS MaxSlots, Roots
VARIABLES m, n, sent, world, calm

Worlds == [opt : 0..1, fin : 0..Roots, upd : {"now", "before", "fails"}, froot : 0..Roots, boots : 0..1, sroot : 0..Roots, states : 0..1]
\* The finalized block never goes back; the finality update may lag behind it.
Follows(w, v) == (v.froot = 0 \/ v.froot >= world.top) /\ (v.sroot = 0 \/ v.sroot >= world.stop)
Healthy(v) == v.boots = 1 /\ v.states = 1 /\ v.upd = "now" /\ v.froot # 0 /\ v.sroot # 0 /\ v.fin # 0
Init == m = Start /\ n = 0 /\ sent = {} /\ world = [top |-> 0, stop |-> 0, fin |-> 0] /\ calm = 0
Next ==
  /\ n < MaxSlots
  /\ \E v \in Worlds :
       /\ Follows(world, v)
       /\ \E k \in Steps(m, v) : m' = k
       /\ n' = n + 1
       \* nothing but the optimistic update is offered a second time
       /\ Assert({x \in Must(m, v) \cap sent : x[1] # "optimistic"} = {}, "offered twice")
       /\ sent' = sent \cup Must(m, v)
       /\ calm' = IF Healthy(v) /\ v.froot = world.top /\ v.sroot = world.stop /\ v.fin = world.fin THEN calm + 1 ELSE 0
       /\ world' = [top |-> IF v.froot # 0 THEN v.froot ELSE world.top, stop |-> IF v.sroot # 0 THEN v.sroot ELSE world.stop, fin |-> v.fin]
Spec == Init /\ [][Next]_<<m, n, sent, world, calm>>

\* A wait lasts two slots and is for a block not yet offered.
Waiting == m.age \in 0..1 /\ (m.busy = 0 => m.age = 0) /\ (m.busy # 0 => m.busy # m.done)
\* The bridge knows what it offered.
Known == /\ (m.done # 0 => <<"boot", m.done>> \in sent) /\ (m.fin # 0 => <<"finality", m.fin>> \in sent)
         /\ (m.sum # 0 => <<"summaries", m.sum>> \in sent) /\ (m.upd <=> <<"update", 0>> \in sent)
\* Whatever failed before: once a node answers everything and stands still, all it has is offered, the
\* bootstrap at most three slots later (an older one may wait first).
Served == /\ (calm >= 1 => m.fin >= world.fin /\ m.upd /\ m.sum = world.stop)
          /\ (calm >= 4 => m.done = world.top)
=============================================================================
