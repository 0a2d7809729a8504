----------------------------- MODULE Summaries -----------------------------
(***************************************************************************)
(* The historical summary for a slot: from a given list, or from a list     *)
(* that is fetched from the beacon network and kept.  Periods are counted   *)
(* from the first one that has a summary; lists are <<tag, length>>, the    *)
(* i-th summary of a list is <<tag, i>>.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Range(s) == {s[i] : i \in 1..Len(s)}
NoList == <<0, 0>>
Has(l, i) == i >= 0 /\ i < l[2]

\* kept: the list kept by the design; lists: all lists ever received; asks: id -> [per, pos]; fetch: number -> id of the ask
Start(cfg) == [kept |-> NoList,
               lists |-> IF cfg.source = "fixed" THEN {<<cfg.tag, cfg.len>>} ELSE {},
               asks |-> <<>>, fetch |-> <<>>]
Have(m, i) == \E l \in m.lists : Has(l, i)
Given(cfg) == IF cfg.source = "fixed" THEN <<cfg.tag, cfg.len>> ELSE NoList

Ids(e) == {d.id : d \in Range(e.done)}
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
With(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]

\* A value given out is the summary of the period asked for, from a list that was received.
ValuesOk(m, asks, e) ==
  UNION {Clause("V05", d.id \in DOMAIN asks, "an answer to nothing")
         \cup (IF d.ok /\ d.id \in DOMAIN asks
               THEN Clause("V05", asks[d.id][1] >= 0, "a summary is given for a slot before the first period")
                    \cup Clause("V05", d.v[2] = asks[d.id][1] \/ asks[d.id][1] < 0, "the summary of another period is given")
                    \cup Clause("V05", \E l \in m.lists : l[1] = d.v[1] /\ Has(l, d.v[2]), "a summary is given that was never received")
               ELSE {})
         : d \in Range(e.done)}

AskStep(cfg, m, e) ==
  LET asks == With(m.asks, e.id, <<e.per, e.pos>>)
      known == Has(m.kept, e.per) \/ Has(Given(cfg), e.per)
      now == e.id \in Ids(e)
      ok == now /\ \E d \in Range(e.done) : d.id = e.id /\ d.ok
      bad == ValuesOk(m, asks, e)
             \cup Clause("V05", known => ok, "a known summary is not given")
             \cup Clause("V05", ~ok => (e.per < 0 \/ cfg.source = "fixed" \/ cfg.source = "absent") = now,
                         "a missing summary is neither fetched nor refused")
             \cup Clause("V05", Ids(e) \subseteq {e.id}, "a pending question is answered by nothing")
             \cup Clause("V05", (~now /\ cfg.source = "oracle") => (Len(e.req) = 1 \/ (e.req = <<>> /\ DOMAIN m.fetch # {})),
                         "not exactly one list is fetched for a missing summary")
             \cup Clause("V05", \A r \in Range(e.req) : r.epoch = <<e.per, e.pos \div 32>>, "a list of another epoch is fetched")
  IN [s |-> [m EXCEPT !.asks = Without(asks, Ids(e)),
                      !.fetch = [k \in DOMAIN @ \cup {r.f : r \in Range(e.req)} |-> IF k \in DOMAIN @ THEN @[k] ELSE e.id],
                      !.kept = IF ok /\ cfg.source = "fixed" THEN Given(cfg) ELSE @],
      bad |-> bad]

\* A fetch is answered.
AnswerStep(cfg, m, e) ==
  IF e.f \notin DOMAIN m.fetch THEN [s |-> m, bad |-> ValuesOk(m, m.asks, e)]
  ELSE
  LET id == m.fetch[e.f]
      open == id \in DOMAIN m.asks
      l == IF e.how = "list" THEN <<e.tag, e.len>> ELSE NoList
      m2 == IF e.how = "list" THEN [m EXCEPT !.lists = @ \cup {l}] ELSE m
      hit == open /\ Has(l, m.asks[id][1])
      okd == \E d \in Range(e.done) : d.id = id /\ d.ok
      bad == ValuesOk(m2, m.asks, e)
             \cup Clause("V05", (open /\ e.req = <<>>) => id \in Ids(e), "a question stays open after its list arrived")
             \cup Clause("V05", hit => okd, "a summary that was fetched is not given")
             \cup Clause("V05", (open /\ okd) => Have(m2, m.asks[id][1]), "a summary is given that no list contains")
  IN [s |-> [m2 EXCEPT !.asks = Without(@, Ids(e)),
                       !.fetch = [k \in (DOMAIN @ \ {e.f}) \cup {r.f : r \in Range(e.req)} |-> IF k \in DOMAIN @ THEN @[k] ELSE id],
                       !.kept = IF hit THEN l ELSE @],
      bad |-> bad]
=============================================================================
