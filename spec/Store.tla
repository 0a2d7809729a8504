------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The content stores: items of different sizes at different distances from *)
(* the local node, a capacity, a radius, and the usage figures.             *)
(*                                                                          *)
(* A configuration c is a record                                            *)
(*   kind   "radius" (capacity and radius apply) or "plain"                 *)
(*   cap    capacity in bytes       maxR   largest radius allowed           *)
(*   base   bytes of key and id     extra  estimated overhead per item      *)
(*   dist   distance of every key   (a distance d is stored with the        *)
(*          precision of Short(d): the low bits are lost)                   *)
(* A state is a record                                                      *)
(*   db      the stored items, a function from keys to [v, n] (value, size) *)
(*   radius  the radius reported     count, bytes, est   the usage figures  *)
(*                                                                          *)
(* The first part is the design: what one operation does, as the set of     *)
(* its possible outcomes.  The second part states the properties S01 to     *)
(* S06 as clauses over one step (state before, event, state after); they    *)
(* are checked on the design by StoreMC and on the implementation's traces  *)
(* by StoreTrace.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MAXD == 2000000
Short(d) == d \div 16

Restrict(f, S) == [x \in S |-> f[x]]
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
EmptyDb == [x \in {} |-> 0]
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumN(_, _)
SumN(db, S) == IF S = {} THEN 0
               ELSE LET x == CHOOSE y \in S : TRUE IN db[x].n + SumN(db, S \ {x})

Bytes(c, db) == SumN(db, DOMAIN db) + c.base * Cardinality(DOMAIN db)
Use(c, db)   == Bytes(c, db) + c.extra * Cardinality(DOMAIN db)
Target(c)    == (c.cap * 95 + 50) \div 100

FarShort(c, db) == LET S == {Short(c.dist[k]) : k \in DOMAIN db}
                   IN CHOOSE m \in S : \A x \in S : x <= m
\* The radius that describes db: the distance of its farthest item.  Items that
\* the stored precision cannot tell apart may each be taken for the farthest.
Farthest(c, db) ==
  IF DOMAIN db = {} THEN {IF c.cap = 0 THEN 0 ELSE c.maxR}
  ELSE {Min(c.dist[k], c.maxR) : k \in {x \in DOMAIN db : Short(c.dist[x]) = FarShort(c, db)}}

-----------------------------------------------------------------------------
(* Design *)

FarthestSets(c, db, n) ==
  {S \in SUBSET DOMAIN db :
     /\ Cardinality(S) = n
     /\ \A x \in S, y \in DOMAIN db \ S : Short(c.dist[y]) <= Short(c.dist[x])}

\* One clean-up: batches of at most b farthest items until the use fits.
RECURSIVE Prune(_, _, _, _)
Prune(c, db, gone, b) ==
  IF Use(c, db) <= c.cap THEN {[db |-> db, gone |-> gone]}
  ELSE LET cnt  == Cardinality(DOMAIN db)
           keep == (Target(c) * cnt) \div Use(c, db)
           n    == IF c.cap = 0 THEN cnt ELSE Min(cnt - keep, b)
       IN UNION {Prune(c, Restrict(db, DOMAIN db \ S), gone \cup {<<k, db[k].v>> : k \in S}, b)
                 : S \in FarthestSets(c, db, n)}

State(c, db, r) == [db |-> db, radius |-> r, count |-> Cardinality(DOMAIN db),
                    bytes |-> Bytes(c, db), est |-> Use(c, db)]

Outcome(st, res, ret) == [st |-> st, res |-> res, ret |-> ret]

DoInsert(c, st, k, x, b) ==
  IF c.kind = "plain"
  THEN {Outcome(State(c, IF k \in DOMAIN st.db THEN st.db ELSE Put(st.db, k, x), 0), "ok", {})}
  ELSE IF c.dist[k] > st.radius THEN {Outcome(st, "radius", {})}
  ELSE LET full == IF k \in DOMAIN st.db THEN st.db ELSE Put(st.db, k, x)
       IN IF Use(c, full) <= c.cap
          THEN {Outcome(State(c, full, st.radius), "ok", {})}
          ELSE UNION {{Outcome(State(c, p.db, r), "ok", p.gone) : r \in Farthest(c, p.db)}
                      : p \in Prune(c, full, {}, b)}

DoDelete(c, st, k) ==
  {Outcome(State(c, Restrict(st.db, DOMAIN st.db \ {k}), st.radius), "ok", {})}

\* Start-up on the items db.
DoOpen(c, db, b) ==
  IF c.kind = "plain" THEN {Outcome(State(c, db, 0), "ok", {})}
  ELSE IF Use(c, db) > c.cap
  THEN UNION {{Outcome(State(c, p.db, r), "ok", {}) : r \in Farthest(c, p.db)}
              : p \in Prune(c, db, {}, b)}
  ELSE IF Use(c, db) > Target(c) THEN {Outcome(State(c, db, r), "ok", {}) : r \in Farthest(c, db)}
  ELSE {Outcome(State(c, db, IF c.cap = 0 THEN 0 ELSE c.maxR), "ok", {})}

-----------------------------------------------------------------------------
(* Properties, as clauses over one step.                                    *)
(* An event e has the fields                                                *)
(*   e    "insert", "delete", "open", "crash", "foreign", "page"            *)
(*   c    the configuration in force                                        *)
(*   k, x key and item of an insertion;  k of a deletion                    *)
(*   res  "ok", "radius" (refused as too far) or an error                   *)
(*   ret  sequence of <<key, value>> handed back                            *)

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

Full(pre, e) == IF e.e \in {"insert", "crash"} /\ e.op = "insert" /\ e.k \notin DOMAIN pre.db
                THEN Put(pre.db, e.k, e.x) ELSE pre.db

\* What an insertion or a start dropped.  The item of an operation that was cut
\* short by a crash need not be there.
Gone(pre, e, post) == IF e.e = "crash" THEN (DOMAIN pre.db \ DOMAIN post.db) \ {e.k}
                      ELSE DOMAIN Full(pre, e) \ DOMAIN post.db

EqualSizes(db) == \A a, b \in DOMAIN db : db[a].n = db[b].n

\* S01
Capacity(c, pre, e, post) ==
  IF c.kind = "plain" THEN {}
  ELSE LET full == Full(pre, e)
           gone == Gone(pre, e, post)
           kept == DOMAIN post.db
       IN IF (e.e = "insert" /\ e.res = "ok") \/ e.e \in {"open", "crash"}
          THEN Clause("S01", Use(c, post.db) <= c.cap, "use exceeds the capacity")
               \cup Clause("S01", (IF e.op = "delete" THEN gone \ {e.k} ELSE gone) # {} => Use(c, full) > c.cap,
                           "items dropped although everything fits")
               \cup Clause("S01", e.op = "delete" \/
                             \A g \in gone, h \in kept :
                               h \in DOMAIN full => Short(c.dist[h]) <= Short(c.dist[g]),
                           "a nearer item dropped before a farther one")
               \cup Clause("S01", (gone # {} /\ e.op # "delete" /\ c.cap > 0 /\ EqualSizes(full)) =>
                             LET g == CHOOSE g \in gone : TRUE
                             IN Use(c, post.db) + full[g].n + c.base + c.extra > Target(c),
                           "more dropped than needed")
          ELSE Clause("S01", (IF e.op = "delete" THEN gone \ {e.k} ELSE gone) = {} \/ (e.e = "insert" /\ gone \subseteq {e.k}),
                      "items dropped without an insertion")

\* S02
Radius(c, pre, e, post) ==
  IF c.kind = "plain" THEN {}
  ELSE LET gone == Gone(pre, e, post) IN
    Clause("S02", post.radius <= c.maxR, "radius above its maximum")
    \cup
    (CASE e.e = "insert" ->
            Clause("S02", (e.res = "ok") = (c.dist[e.k] <= pre.radius) /\ e.res \in {"ok", "radius"},
                   "acceptance does not follow the radius")
            \cup Clause("S02", (e.res = "ok" /\ gone # {}) => post.radius \in Farthest(c, post.db),
                        "radius after a clean-up is not the farthest distance")
            \cup Clause("S02", (e.res # "ok" \/ gone = {}) => post.radius = pre.radius,
                        "radius changed without a clean-up")
            \cup Clause("S02", DOMAIN post.db = {} \/ Short(post.radius) <= Short(pre.radius),
                        "radius grew while open")
       [] e.e = "delete" ->
            Clause("S02", post.radius = pre.radius, "radius changed by a deletion")
       [] e.e \in {"open", "crash"} ->
            Clause("S02", IF Use(c, Full(pre, e)) > c.cap \/ Use(c, post.db) > Target(c)
                          THEN \/ post.radius \in Farthest(c, post.db)
                               \* a crash can fall between the clean-up and the start
                               \/ e.e = "crash" /\ Use(c, post.db) <= Target(c) /\ post.radius = c.maxR
                          ELSE post.radius = IF c.cap = 0 THEN 0 ELSE c.maxR,
                   "radius after the start is wrong")
       [] OTHER -> {})
    \cup Clause("S02", (e.e = "insert" /\ gone # {} /\ e.res = "ok") =>
                   \A k \in DOMAIN post.db : Short(c.dist[k]) <= Short(post.radius) \/ post.radius = c.maxR,
                "an item kept lies outside the radius")

\* S03
HandedBack(c, pre, e, post) ==
  IF e.e # "insert" THEN {}
  ELSE LET full == Full(pre, e)
           gone == IF e.res = "ok" THEN Gone(pre, e, post) ELSE DOMAIN pre.db \ DOMAIN post.db
           ret  == {e.ret[i] : i \in 1..Len(e.ret)}
       IN Clause("S03", {x[1] : x \in ret} = gone, "items handed back are not the items dropped")
          \cup Clause("S03", Len(e.ret) = Cardinality(gone), "an item handed back more than once")
          \cup Clause("S03", \A x \in ret : x[1] \in DOMAIN full => x[2] = full[x[1]].v,
                      "an item handed back with another value")

\* S04
Usage(c, pre, e, post) ==
  IF e.e = "foreign" THEN {}
  ELSE Clause("S04", post.count = Cardinality(DOMAIN post.db), "entry count is wrong")
       \cup Clause("S04", post.bytes = Bytes(c, post.db), "byte count is wrong")
       \cup Clause("S04", post.est = Use(c, post.db), "estimated disk use is wrong")

\* S05
Recovery(c, pre, e, post) ==
  CASE e.e = "crash" ->
         LET full == Full(pre, e)
             lost == DOMAIN pre.db \ DOMAIN post.db
             may  == IF e.op = "delete" THEN {e.k} ELSE {}
         IN Clause("S05", DOMAIN post.db \subseteq DOMAIN full, "an item appeared that was never stored")
            \cup Clause("S05", \A k \in DOMAIN post.db \cap DOMAIN full : post.db[k].v = full[k].v,
                        "a value changed over a crash")
            \cup Clause("S05", lost \subseteq may \/ (c.kind = "radius" /\ Use(c, full) > c.cap),
                        "a stored item was lost in a crash")
            \cup Clause("S05", \A g \in lost \ may, h \in DOMAIN post.db \cap DOMAIN full :
                           Short(c.dist[h]) <= Short(c.dist[g]),
                        "a nearer item lost in a crash")
            \cup Clause("S05", /\ post.count = Cardinality(DOMAIN post.db)
                               /\ post.bytes = Bytes(c, post.db),
                        "counters wrong after a crash")
    [] e.e = "open" ->
         Clause("S05", e.res = "ok", "a store could not be opened again")
         \cup Clause("S05", \A k \in DOMAIN post.db : k \in DOMAIN pre.db /\ post.db[k].v = pre.db[k].v,
                     "an item changed over a restart")
         \cup Clause("S05", DOMAIN pre.db \subseteq DOMAIN post.db \/ (c.kind = "radius" /\ Use(c, pre.db) > c.cap),
                     "an item was lost in a restart")
         \cup Clause("S05", post.count = Cardinality(DOMAIN post.db) /\ post.bytes = Bytes(c, post.db),
                     "counters wrong after a restart")
    [] e.e = "foreign" ->
         Clause("S05", e.refuse => e.res # "ok", "a foreign database was opened")
         \cup Clause("S05", post.db = pre.db, "a refused database was changed")
    [] OTHER -> {}

\* S06
ReadBack(c, pre, e, post) ==
  LET full == IF e.e = "insert" /\ e.res # "ok" THEN pre.db ELSE Full(pre, e)
  IN IF e.e = "page"
     THEN LET S == {e.keys[i] : i \in 1..Len(e.keys)}
          IN Clause("S06", S = DOMAIN pre.db /\ Len(e.keys) = Cardinality(DOMAIN pre.db),
                    "the pages do not list every key once")
             \cup Clause("S06", \A i \in 1..Len(e.cuts) :
                            LET q == e.cuts[i] IN
                            q.keys = SubSeq(e.keys, q.off + 1, Min(q.off + q.lim, Len(e.keys))),
                         "a page is not a slice of the listing")
     ELSE Clause("S06", DOMAIN post.db \subseteq DOMAIN full, "a key is found that was not stored")
          \cup Clause("S06", \A k \in DOMAIN post.db \cap DOMAIN full : post.db[k].v = full[k].v,
                      "a key reads back another value")
          \cup Clause("S06", (e.e = "delete") => /\ e.k \notin DOMAIN post.db
                                                 /\ DOMAIN pre.db \ {e.k} \subseteq DOMAIN post.db,
                      "a deletion did not remove exactly its key")
          \cup Clause("S06", (e.e = "insert" /\ e.res = "ok" /\ e.k \notin DOMAIN post.db) =>
                             (c.kind = "radius" /\ Use(c, full) > c.cap),
                      "a stored key is not found")
          \cup Clause("S06", Len(e.odd) = 0, "the lookups contradict each other")

Violated(c, pre, e, post) ==
  Capacity(c, pre, e, post) \cup Radius(c, pre, e, post) \cup HandedBack(c, pre, e, post)
  \cup Usage(c, pre, e, post) \cup Recovery(c, pre, e, post) \cup ReadBack(c, pre, e, post)
=============================================================================
