----------------------------- MODULE WalkTrace -----------------------------
EXTENDS TraceBase
W == INSTANCE Walk
Clause(p, ok, txt) == IF ok THEN {} ELSE {<<p, txt>>}
WInit(cfg) == [want |-> W!Wanted(cfg), seen |-> {}]
\* All nodes on the way to one that is selected are selected.
Way(want, p) == W!InOrder({r \in want : W!Prefix(r, p)})
\* With a slice chosen by lot the nodes are those of one of them.
Whole(cfg, q) == IF cfg.mode = "lot" THEN \E i \in 0..(cfg.slices - 1) \cup {0} : q.seen = W!Wanted([cfg EXCEPT !.mode = "slice", !.slice = i]) ELSE q.want \subseteq q.seen
WStep(cfg, q, e) ==
  CASE e.e = "panic" -> {[s |-> q, bad |-> {<<"ANY", "the code panicked">>}]}
    [] e.e = "node" ->
         {[s |-> [q EXCEPT !.seen = @ \cup {e.path}],
           bad |-> Clause("V09", e.path \in q.want, "a node is yielded that is none of those selected")
                   \cup Clause("V09", e.path \notin q.seen, "a node is yielded twice")
                   \cup Clause("V09", e.path \in q.want => e.proof = Way(q.want, e.path), "a node comes with another proof than the nodes on the way to it")
                   \cup Clause("V09", e.made, "content made of a node is not what its key names, or its proof is refused")
                   \cup Clause("V09", e.leads, "the path of a leaf does not lead to a key of the trie")]}
    [] e.e = "refused" -> {[s |-> q, bad |-> Clause("V09", W!Refused(cfg), "a walk is refused though the root is at hand")]}
    [] OTHER -> {[s |-> q, bad |-> Clause("V09", ~W!Refused(cfg), "a walk begins without the root")
                                      \cup Clause("V09", Whole(cfg, q) \/ W!Refused(cfg), "a selected node is not yielded")]}
=============================================================================
