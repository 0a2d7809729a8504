------------------------------- MODULE Beacon -------------------------------
(* What the store of the beacon network serves (S07).                        *)
(*                                                                           *)
(* A view is everything the store serves when asked for as little as         *)
(* possible:                                                                 *)
(*   boot  per block root (a number) the bootstrap served for it, 0 if none  *)
(*   upd   per period (counted from 0, so period p is upd[p + 1]) the update *)
(*   fin, opt, sum  << >> or <<slot or epoch, tag>> of the finality update,  *)
(*         the optimistic update and the historical summaries                *)
(* Items of a kind are told apart by their tag.  A key is                    *)
(*   kind, key     block root, first period, slot or epoch                   *)
(*   count         of periods                                                *)
(* where negative numbers stand for numbers close to the largest one.  A     *)
(* stored value adds                                                         *)
(*   val   the block root of its header, the number of updates, or its own   *)
(*         slot or epoch; tag; fork; and fault, "" unless it cannot be read. *)
EXTENDS Integers, Sequences, FiniteSets

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Empty(ids, periods) == [boot |-> [i \in 1..ids |-> 0], upd |-> [i \in 1..periods |-> 0], fin |-> <<>>, opt |-> <<>>, sum |-> <<>>]

----------------------------------------------------------------------------
(* Answers *)

Huge(k) == k.key < 0 \/ (k.kind = "range" /\ k.count < 0)
Span(k) == (k.key + 1)..(k.key + k.count)
Whole(v, k) == ~Huge(k) /\ \A i \in Span(k) : i \in DOMAIN v.upd /\ v.upd[i] # 0
Part(v, k) == ~Huge(k) /\ \E i \in Span(k) : i \in DOMAIN v.upd /\ v.upd[i] # 0
Recent(x, k) == ~Huge(k) /\ x # <<>> /\ x[1] >= k.key
Held(v, kind) == CASE kind = "fin" -> v.fin [] kind = "opt" -> v.opt [] OTHER -> v.sum

Has(v, k) ==
  CASE k.kind = "boot" -> k.key \in DOMAIN v.boot /\ v.boot[k.key] # 0
    [] k.kind = "range" -> Whole(v, k)
    [] OTHER -> Recent(Held(v, k.kind), k)
\* The tags of what is served.
Answer(v, k) ==
  CASE ~Has(v, k) -> <<>>
    [] k.kind = "boot" -> <<v.boot[k.key]>>
    [] k.kind = "range" -> [i \in 1..k.count |-> v.upd[k.key + i]]
    [] OTHER -> <<Held(v, k.kind)[2]>>
\* An empty range may count as held or not.
Trivial(k) == k.kind = "range" /\ k.count = 0
\* Of a range that is held in part, what is missing may be asked for or not.
Wanted(v, k) == IF Has(v, k) THEN {"stored"} ELSE IF k.kind = "range" /\ Part(v, k) THEN {"stored", "store"} ELSE {"store"}

----------------------------------------------------------------------------
(* Storing: the views that may follow *)

Readable(o) == o.fault = ""
\* An item that is held already may stay or be replaced by another one for the same key.
One(old, new) == IF old = 0 THEN {new} ELSE {old, new}
Hold(v, o, must) == {[v EXCEPT !.boot[o.val] = x] : x \in One(v.boot[o.val], o.tag) \cup (IF must THEN {} ELSE {v.boot[o.val]})}

Choices(v, o, i) == One(v.upd[o.key + i], o.tag + i - 1) \cup (IF o.val = o.count THEN {} ELSE {v.upd[o.key + i]})
RECURSIVE Updates(_, _, _)
Updates(v, o, i) ==
  IF i > o.val \/ i > o.count \/ o.key + i > Len(v.upd) THEN {v}
  ELSE UNION {Updates([v EXCEPT !.upd[o.key + i] = x], o, i + 1) : x \in Choices(v, o, i)}

\* A newer item replaces the one held; an older one may.
Newest(old, new) == IF old = <<>> \/ new[1] > old[1] THEN {new} ELSE {old, new}
With(v, kind, x) == CASE kind = "fin" -> [v EXCEPT !.fin = x] [] kind = "opt" -> [v EXCEPT !.opt = x] [] OTHER -> [v EXCEPT !.sum = x]

After(v, o) ==
  CASE ~Readable(o) -> {v}
    [] o.kind = "boot" -> IF o.val \in DOMAIN v.boot THEN Hold(v, o, o.val = o.key) ELSE {v}
    [] o.kind = "range" -> IF Huge(o) THEN {v} ELSE Updates(v, o, 1)
    \* finality updates of earlier forks need not be kept
    [] OTHER -> {With(v, o.kind, x) : x \in Newest(Held(v, o.kind), <<o.val, o.tag>>)
                                            \cup (IF o.kind = "fin" /\ o.fork # "electra" THEN {<<>>, v.fin} ELSE {})}

\* What is kept in memory only is lost; nothing else is.
Restarted(v) == {[v EXCEPT !.fin = f, !.opt = q] : f \in {<<>>, v.fin}, q \in {<<>>, v.opt}}

\* Bootstraps past the limit may go, no others.
Limit == 864000
Old(cfg, i) == cfg.ages[i] > Limit - 20
Pruned(cfg, v, w) == /\ [w EXCEPT !.boot = v.boot] = v
                     /\ \A i \in DOMAIN v.boot : w.boot[i] = v.boot[i] \/ (w.boot[i] = 0 /\ Old(cfg, i))

Latest(cfg, v) == {i \in DOMAIN v.boot : v.boot[i] # 0 /\ \A j \in DOMAIN v.boot : v.boot[j] # 0 => cfg.ages[i] <= cfg.ages[j]}

----------------------------------------------------------------------------
(* Observations *)

Tags(e) == [i \in 1..Len(e.parts) |-> e.parts[i][2]]
Clauses(cfg, v, e) ==
  CASE e.e = "put" ->
         Clause("S07", e.view \in After(v, e), "storing an item left something else than that item behind")
         \cup Clause("S07", Readable(e) => e.ok \/ Huge(e) \/ (e.kind = "boot" /\ e.val # e.key) \/ (e.kind = "range" /\ e.val # e.count)
                                                \/ (e.kind = "fin" /\ e.fork # "electra"), "a sound item was refused")
    [] e.e = "get" ->
         Clause("S07", e.got => Has(v, e), "an item was served that is not held, or not recent enough")
         \cup Clause("S07", Has(v, e) /\ ~Trivial(e) => e.got, "an item that is held was not served")
         \cup Clause("S07", e.got /\ Has(v, e) => Tags(e) = Answer(v, e), "another item was served than the one held for the key")
    [] e.e = "want" ->
         Clause("S07", Huge(e) \/ Trivial(e) \/ e.out \in Wanted(v, e), "an item was asked for that is held, or not asked for though missing")
    [] e.e = "latest" ->
         Clause("S07", IF Latest(cfg, v) = {} THEN e.out = 0 ELSE e.out \in Latest(cfg, v), "another bootstrap than the newest counts as the latest")
    [] e.e = "prune" -> Clause("S07", Pruned(cfg, v, e.view), "pruning changed more than bootstraps past the limit")
    [] e.e = "restart" ->
         Clause("S07", e.view \in Restarted(v), "items changed over a restart")
         \cup Clause("S07", v.sum # <<>> => e.head = v.sum[1], "the stored summaries are not known after a restart")
    [] OTHER -> {<<"ANY", "unknown event">>}
Next(v, e) == IF e.e \in {"put", "prune", "restart"} THEN e.view ELSE v
=============================================================================
