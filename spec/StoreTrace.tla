----------------------------- MODULE StoreTrace -----------------------------
(* Recorded histories of the real content stores.  The contents are taken    *)
(* from the lookups made after every operation; the clauses judge each step. *)
EXTENDS Store, TraceBase

StInit(cfg) == [cap |-> cfg.cap, maxR |-> cfg.maxR,
                st |-> [db |-> EmptyDb, radius |-> cfg.maxR, count |-> 0, bytes |-> 0, est |-> 0]]

Apply(db, e) ==
  LET del == {e.del[i] : i \in 1..Len(e.del)}
      add == {e.add[i] : i \in 1..Len(e.add)}
      addk == {x.k : x \in add}
  IN [k \in (DOMAIN db \ del) \cup addk |->
        IF k \in addk THEN LET x == CHOOSE x \in add : x.k = k IN [v |-> x.v, n |-> x.n] ELSE db[k]]

StStep(cfg, p, e) ==
  IF e.e = "panic" THEN {[s |-> p, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE
  LET cap  == IF e.e = "open" THEN e.cap ELSE p.cap
      maxR == IF e.e = "open" THEN e.maxR ELSE p.maxR
      c    == [kind |-> cfg.kind, cap |-> cap, maxR |-> maxR, base |-> cfg.base,
               extra |-> cfg.extra, dist |-> cfg.dist]
      post == IF e.e \in {"page", "foreign"} THEN [p.st EXCEPT !.db = Apply(p.st.db, e)]
              ELSE [db |-> Apply(p.st.db, e), radius |-> e.radius, count |-> e.count,
                    bytes |-> e.bytes, est |-> e.est]
  IN {[s |-> [cap |-> cap, maxR |-> maxR, st |-> post], bad |-> Violated(c, p.st, e, post)]}
=============================================================================
