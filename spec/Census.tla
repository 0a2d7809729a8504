------------------------------- MODULE Census -------------------------------
(***************************************************************************)
(* The census of the bridge: which peers of each network it knows, when it *)
(* checks them, when it drops them, and which of them it offers content to.*)
(*                                                                         *)
(* A check is a ping and, when the answer names a newer record than the    *)
(* one used, a request for that record.  It succeeds when the answer is of *)
(* the expected kind and the newer record arrives.  A peer is known from   *)
(* its first successful check until its latest Drop checks have all failed.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Drop, Bound, Many

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Range(f) == {f[i] : i \in DOMAIN f}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* only the latest Window offers are remembered
Window == 255
NoOffers == [ok |-> 0, fail |-> 0, limited |-> 0, far |-> 0, declined |-> 0, stored |-> 0]
All(x) == x.offers.ok + x.offers.fail + x.offers.limited + x.offers.far + x.offers.declined + x.offers.stored
\* live: the outcomes of the latest checks, newest first; wait: the record used and the radius told
\* by a check that still lacks the newer record; out: driven out, that is seen not to be chosen
\* although nothing but its record of successes and failures can be the reason; run: the latest results that were all the same
Stranger == [known |-> FALSE, live |-> <<>>, seq |-> 0, rad |-> 0, last |-> 0, wait |-> <<>>, offers |-> NoOffers, run |-> [how |-> "", n |-> 0], out |-> FALSE]
Empty(n) == [at |-> [k \in 1..3 |-> [i \in 1..n |-> Stranger]], found |-> [k \in 1..3 |-> {}],
             old |-> [k \in 1..3 |-> {}], runs |-> {}, tried |-> FALSE]

Known(m, k) == {i \in DOMAIN m.at[k] : m.at[k][i].known}

Told(x, good) == SubSeq(<<good>> \o x.live, 1, Min(Drop, Len(x.live) + 1))
Obsolete(live) == Len(live) = Drop /\ \A i \in 1..Drop : ~live[i]
Passed(x, rec, rad, t) ==
  [x EXCEPT !.known = TRUE, !.live = Told(x, TRUE), !.seq = IF x.known THEN Max(x.seq, rec) ELSE rec,
            !.rad = rad, !.last = t, !.wait = <<>>, !.out = FALSE]
Failed(x, t) ==
  IF ~x.known THEN [x EXCEPT !.wait = <<>>]
  ELSE IF Obsolete(Told(x, FALSE)) THEN Stranger
  ELSE [x EXCEPT !.live = Told(x, FALSE), !.last = t, !.wait = <<>>]
Pinged(x, e) ==
  CASE e.out # "ok" -> Failed(x, e.t)
    [] e.pong > e.used -> [x EXCEPT !.wait = <<e.used, e.rad>>]
    [] OTHER -> Passed(x, e.used, e.rad, e.t)
Fetched(x, e) ==
  CASE x.wait = <<>> -> x
    [] e.out = "rec" -> Passed(x, e.rec, x.wait[2], e.t)
    [] OTHER -> Failed(x, e.t)
Field(how) == CASE how \in {"ok", "fail", "limited", "far", "stored"} -> how [] OTHER -> "declined"
Offered(x, how, times) ==
  IF ~x.known THEN x
  ELSE [x EXCEPT !.offers[Field(how)] = @ + times, !.run = [how |-> how, n |-> times + IF @.how = how THEN @.n ELSE 0], !.out = @ /\ how # "ok" /\ All(x) + times <= Window]

Wide(cfg, m, k) == cfg.limit >= Cardinality(Known(m, k))
Absent(m, e) == {i \in Known(m, e.net) : \A j \in DOMAIN e.out : e.out[j][1] # i}
Next(cfg, m, e) ==
  CASE e.e = "ping" -> [m EXCEPT !.at[e.net][e.p] = Pinged(@, e)]
    [] e.e = "fetch" -> [m EXCEPT !.at[e.net][e.p] = Fetched(@, e)]
    [] e.e = "find" -> [m EXCEPT !.found[e.net] = Range(e.recs), !.old[e.net] = @ \cup m.found[e.net]]
    [] e.e = "init" -> [m EXCEPT !.runs = IF e.ok THEN Range(e.nets) ELSE @, !.tried = TRUE]
    [] e.e = "tick" -> [m EXCEPT !.old = [k \in 1..3 |-> {}]]
    [] e.e = "offer" -> [m EXCEPT !.at[e.net][e.p] = Offered(@, e.how, e.times)]
    [] e.e = "select" /\ e.key < 0 /\ Wide(cfg, m, e.net) ->
         [m EXCEPT !.at[e.net] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.out = @ \/ i \in Absent(m, e)]]]
    [] OTHER -> m

\* ---- what must hold --------------------------------------------------------------------------
\* the records under which a peer may be contacted
Names(m, e) == {r[2] : r \in {q \in m.found[e.net] \cup m.old[e.net] : q[1] = e.p}}
Settled(m) == \A k \in 1..3 : \A i \in DOMAIN m.at[k] : m.at[k][i].wait = <<>>
Checked(m, t) == \A k \in m.runs : \A i \in Known(m, k) : t - m.at[k][i].last <= Bound

OnPing(m, e) ==
  LET x == m.at[e.net][e.p] IN
  Clause("C01", x.known \/ Names(m, e) # {}, "a peer that was dropped and not found again is checked")
  \cup Clause("C01", e.used \in Names(m, e) \cup (IF x.known THEN {x.seq} ELSE {}), "a peer is contacted under a record that is neither its newest nor one just found")
  \cup Clause("C01", x.known /\ e.net \in m.runs => e.t - x.last <= Bound, "a known peer was left unchecked")
OnTick(m, e) ==
  Clause("C01", e.alive, "the census stopped keeping its peers up to date")
  \cup Clause("C01", Checked(m, e.t), "a known peer was left unchecked")
  \cup Clause("C01", Settled(m), "a peer told of a newer record and was not asked for it")

\* never turned down, and nothing offered to it failed
Sure(x) == x.known /\ x.offers.fail = 0 /\ x.offers.limited = 0 /\ x.offers.far = 0 /\ x.offers.declined = 0
\* so many results of one kind in a row that nothing before them can count
Lately(x, how) == x.known /\ x.run.how = how /\ x.run.n >= Window + 45
Hopeless(x) == (x.offers.ok = 0 /\ x.offers.fail >= Many /\ All(x) <= Window) \/ Lately(x, "fail")
Covers(m, e, i) == e.key < 0 \/ e.cov[i][m.at[e.net][i].rad]
OnSelect(cfg, m, e) ==
  LET who == {r[1] : r \in Range(e.out)}
      x(i) == m.at[e.net][i]
      sure == {i \in DOMAIN m.at[e.net] : (Sure(x(i)) \/ Lately(x(i), "ok")) /\ Covers(m, e, i)}
      known == \A i \in who : i > 0 /\ x(i).known IN
  Clause("C02", Cardinality(who) = Len(e.out), "a peer is chosen twice")
  \cup Clause("C02", Len(e.out) <= cfg.limit, "more peers are chosen than the limit")
  \cup Clause("C02", Len(e.out) >= Min(cfg.limit, Cardinality(sure)), "fewer peers are chosen than could be")
  \cup Clause("C01", known, "a dropped or unknown peer is chosen")
  \cup (IF ~known THEN {} ELSE
        Clause("C02", \A i \in who : Covers(m, e, i), "a peer is chosen whose radius does not cover the content")
        \cup Clause("C02", \A i \in who : ~x(i).out, "a peer that was no longer chosen is chosen again without any success")
        \cup Clause("C02", \A i \in who : ~Hopeless(x(i)), "a peer that failed over and over and never accepted anything is chosen")
        \cup Clause("C01", \A r \in Range(e.out) : r[2] = x(r[1]).seq, "a peer is known under a record that is not its newest"))
  \cup Clause("C01", Wide(cfg, m, e.net) => sure \subseteq who, "a known peer whose radius covers the content is missing")

\* q's record is at least as good as p's: as many successes, no more failures, all else equal
Wins(x) == x.offers.ok + Cardinality({i \in DOMAIN x.live : x.live[i]})
Losses(x) == x.offers.fail + Cardinality({i \in DOMAIN x.live : ~x.live[i]})
\* being turned down is no success
Alike(x, y) == x.offers.limited <= y.offers.limited /\ x.offers.far <= y.offers.far /\ x.offers.declined <= y.offers.declined
AsGood(x, y) == /\ Alike(x, y)
                /\ x.offers.ok >= y.offers.ok /\ x.offers.fail <= y.offers.fail
                /\ Cardinality({i \in DOMAIN x.live : x.live[i]}) >= Cardinality({i \in DOMAIN y.live : y.live[i]})
                /\ Cardinality({i \in DOMAIN x.live : ~x.live[i]}) <= Cardinality({i \in DOMAIN y.live : ~y.live[i]})
\* nothing that counts has been forgotten, nor will be by so many further results
Fresh(m, k, more) == {i \in Known(m, k) : All(m.at[k][i]) + more <= Window}
Better(x, y, by) == AsGood(x, y) /\ Wins(x) >= Wins(y) + by /\ Losses(x) + by <= Losses(y)
\* counts: how many further setbacks of one kind it took until the peer was no longer chosen
OnMeasure(cfg, m, e) ==
  LET x(i) == m.at[e.net][i] IN
  IF ~Wide(cfg, m, e.net) THEN {} ELSE
  Clause("C02", \A i, j \in Fresh(m, e.net, 210) : AsGood(x(i), x(j)) => e.counts[i] >= e.counts[j], "a peer with more successes or fewer failures weighs less than another")
  \cup Clause("C02", \A i, j \in Fresh(m, e.net, 210) : (Better(x(i), x(j), 5) /\ e.counts[j] \in 1..199) => e.counts[i] > e.counts[j], "successes and failures do not change how much a peer weighs")
\* times: how often each peer was chosen in a thousand draws of a single one
OnDraw(cfg, m, e) ==
  LET x(i) == m.at[e.net][i] IN
  Clause("C02", \A i \in DOMAIN e.times : e.times[i] > 0 => x(i).known, "a dropped or unknown peer is chosen")
  \cup (IF cfg.limit # 1 THEN {} ELSE
        Clause("C02", \A i, j \in Fresh(m, e.net, 0) : (Sure(x(i)) /\ Losses(x(i)) <= 3 /\ Better(x(i), x(j), 15)) => e.times[i] > e.times[j], "a reliable peer is not favoured over an unreliable one"))

Clauses(cfg, m, e) ==
  CASE e.e = "ping" -> OnPing(m, e)
    [] e.e = "tick" -> OnTick(m, e)
    [] e.e = "select" -> OnSelect(cfg, m, e)
    [] e.e = "measure" -> OnMeasure(cfg, m, e)
    [] e.e = "draw" -> OnDraw(cfg, m, e)
    [] OTHER -> {}
=============================================================================
