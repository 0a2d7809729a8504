------------------------------ MODULE StoreMC ------------------------------
(* The store design driven by every operation sequence, with the properties *)
(* evaluated at every step.  Used exhaustively with small constants          *)
(* (StoreMC.cfg) and, with realistic sizes and a recorded history, to        *)
(* generate programs for the implementation (StoreGen.cfg).                  *)
EXTENDS Store, Json, IOUtils

CONSTANTS Keys,      \* 1..n
          Dists,     \* distances of the keys: a set of functions
          Sizes,     \* value sizes
          Tags,      \* distinguishes values of equal size
          Caps, Radii, Base, Extra, Kinds,
          Batches,   \* batch limits of a clean-up
          Record,    \* keep the history?
          Depth

VARIABLES c, st, bad, hist

vars == <<c, st, bad, hist>>

Cfg(kind, cap, maxR, d) == [kind |-> kind, cap |-> cap, maxR |-> maxR, base |-> Base,
                            extra |-> IF kind = "plain" THEN 0 ELSE Extra, dist |-> d]
Val(n, g) == ToString(n) \o ":" \o ToString(g)

Log(op) == hist' = IF Record THEN Append(hist, op) ELSE hist

Init == /\ \E kind \in Kinds, cap \in Caps, r \in Radii, d \in Dists : c = Cfg(kind, cap, r, d)
        /\ st \in {o.st : o \in DoOpen(c, EmptyDb, 100)}
        /\ bad = {}
        /\ hist = IF Record THEN <<[op |-> "init", cap |-> c.cap, maxR |-> c.maxR, kind |-> c.kind,
                                    dist |-> c.dist]>> ELSE <<>>

Ev(name, op, k, x, o) == [e |-> name, op |-> op, k |-> k, x |-> x, res |-> o.res, odd |-> <<>>,
                          ret |-> IF o.ret = {} THEN <<>> ELSE CHOOSE q \in [1..Cardinality(o.ret) -> o.ret] :
                                     \A i, j \in DOMAIN q : i # j => q[i] # q[j]]

Insert == \E k \in Keys, n \in Sizes, g \in Tags, b \in Batches :
            LET x == [v |-> Val(n, g), n |-> n] IN
            \E o \in DoInsert(c, st, k, x, b) :
              /\ st' = o.st /\ c' = c
              /\ bad' = Violated(c, st, Ev("insert", "insert", k, x, o), o.st)
              /\ Log([op |-> "insert", k |-> k, n |-> n, g |-> g])

Delete == \E k \in Keys :
            \E o \in DoDelete(c, st, k) :
              /\ st' = o.st /\ c' = c
              /\ bad' = Violated(c, st, Ev("delete", "delete", k, 0, o), o.st)
              /\ Log([op |-> "delete", k |-> k])

Reopen == \E cap \in Caps, r \in Radii, b \in Batches :
            LET d == Cfg(c.kind, cap, r, c.dist) IN
            \E o \in DoOpen(d, st.db, b) :
              /\ st' = o.st /\ c' = d
              /\ bad' = Violated(d, st, Ev("open", "open", 0, 0, o), o.st)
              /\ Log([op |-> "open", cap |-> cap, maxR |-> r])

\* The process is killed somewhere inside an insertion: the item may or may not
\* have been written and some batches of the clean-up may have been done; then it
\* starts again.
Crash == \E k \in Keys, n \in Sizes, g \in Tags, b \in Batches :
           LET x    == [v |-> Val(n, g), n |-> n]
               full == IF k \in DOMAIN st.db THEN st.db ELSE Put(st.db, k, x)
               part == IF c.kind = "plain" \/ c.dist[k] <= st.radius
                       THEN {st.db, full} \cup
                            (IF c.kind = "plain" \/ Use(c, full) <= c.cap THEN {}
                             ELSE {p.db : p \in Prune(c, full, {}, b)} \cup
                                  {Restrict(full, DOMAIN full \ S) : S \in FarthestSets(c, full, 1)})
                       ELSE {st.db}
           IN \E db \in part : \E o \in DoOpen(c, db, b) :
                /\ st' = o.st /\ c' = c
                /\ bad' = Violated(c, st, Ev("crash", "insert", k, x, o), o.st)
                /\ Log([op |-> "crash", k |-> k, n |-> n, g |-> g])

Next == Insert \/ Delete \/ Reopen \/ Crash
GenNext == Insert \/ Delete \/ Reopen

Spec    == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

MCDists == {<<0, 33, 40, 64>>}
MCDistsDeep == {<<0, 33, 40, 64, 65>>}
GenDists == {<<0, 17, 19, 1600, 3200, 64007, 64001, 120000, 159984, 159999>>,
             <<16, 32, 48, 64, 80, 96, 112, 128, 144, 160>>,
             <<80001, 80002, 80003, 80004, 79999, 64, 48, 32, 159990, 1>>}
Holds == bad = {}

\* Consequences the clauses add up to.
Fits    == c.kind = "radius" => Use(c, st.db) <= c.cap
Covered == (c.kind = "radius" /\ c.cap = 0) => DOMAIN st.db = {}

Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
