------------------------------- MODULE Cells -------------------------------
(***************************************************************************)
(* What the store of the state network keeps (S08).  Every key commits to   *)
(* one node or code; a view says per key whether nothing is served for it   *)
(* (0), exactly that node or code without any proof (1), or anything else   *)
(* (-1).  A stored value is described by                                    *)
(*   form   "proof", or what else it is                                     *)
(*   own    the place of the key's node in the chain (0: not in it)         *)
(*   len    the length of the chain; for code, own = len says the code is   *)
(*          the right one                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Empty(n) == [i \in 1..n |-> 0]
Sound(o) == o.form = "proof" /\ o.len > 0 /\ o.own = o.len
Held(v) == {i \in DOMAIN v : v[i] # 0}

Clauses(cfg, v, e) ==
  CASE e.e = "put" ->
         Clause("S08", \A i \in DOMAIN v : i # e.key => e.view[i] = v[i], "storing content changed what is served for another key")
         \cup Clause("S08", ~Sound(e) => e.view = v, "content that does not match its key changed the store")
         \cup Clause("S08", ~Sound(e) => ~e.ok, "content that does not match its key was not refused")
         \cup Clause("S08", (Sound(e) /\ ~cfg.far[e.key]) => e.ok, "content that matches its key was refused")
         \cup Clause("S08", (Sound(e) /\ (e.ok \/ v[e.key] = 1)) => e.view[e.key] = 1, "what is served is not the bare node or code of the key")
         \cup Clause("S08", (Sound(e) /\ ~e.ok) => e.view[e.key] = v[e.key], "refused content changed the store")
    [] e.e = "get" -> Clause("S08", e.out = v[e.key], "another value is served than before")
    [] e.e = "want" -> Clause("S08", (e.out = "stored") = (v[e.key] # 0), "content is taken for stored that is not, or the other way round")
                       \cup Clause("S08", (v[e.key] = 0 /\ ~cfg.far[e.key]) => e.out = "store", "content that is missing is not wanted")
    [] e.e = "list" -> Clause("S08", {e.keys[j] : j \in 1..Len(e.keys)} = Held(v) /\ Len(e.keys) = Cardinality(Held(v)), "the keys listed are not those held")
                       \cup Clause("S08", e.total = Cardinality(Held(v)), "the number of keys is not that of those held")
    [] e.e = "restart" -> Clause("S08", e.view = v, "what is served changed over a restart")
    [] OTHER -> {<<"ANY", "unknown event">>}
Next(v, e) == IF e.e \in {"put", "restart"} THEN e.view ELSE v
=============================================================================
