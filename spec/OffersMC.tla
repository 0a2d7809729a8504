------------------------------ MODULE OffersMC ------------------------------
(* Every history of offers, transfers that succeed or fail in any way,       *)
(* fall-back requests, content requests, lookups and answers to the node's   *)
(* own offers; the clauses are evaluated on the design.                      *)
EXTENDS Offers, Json, IOUtils

CONSTANTS Configs, Askers,   \* peers that send something
          OfferLists, Keys0, \* keys of offers; keys asked for
          Values(_),         \* values that may arrive for a key
          MaxOffers, MaxFinds, MaxLooks, Record, Depth

VARIABLES c, m, open, ids, used, bad, hist
vars == <<c, m, open, ids, used, bad, hist>>

\* open: [jobs, asks, outs] whose stream is open; ids: last ones given out
Fresh(kind, n, f) == IF Record THEN [i \in 1..n |-> ids[kind] + i]
                     ELSE LET free == {x \in 1..12 : x \notin DOMAIN f}
                              Low[i \in 0..n] == IF i = 0 THEN <<>>
                                 ELSE Append(Low[i - 1], CHOOSE x \in free \ Range(Low[i - 1]) :
                                                           \A y \in free \ Range(Low[i - 1]) : x <= y)
                          IN Low[n]
Log(op) == hist' = IF Record THEN Append(hist, op) ELSE hist

Init == /\ c \in Configs
        /\ m = Start(c)
        /\ open = [jobs |-> {}, asks |-> {}, outs |-> {}]
        /\ ids = [jobs |-> 0, asks |-> 0, outs |-> 0]
        /\ used = [offers |-> 0, finds |-> 0, looks |-> 0]
        /\ bad = {}
        /\ hist = IF Record THEN <<[op |-> "init", c |-> c]>> ELSE <<>>

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
Subsets(S, n) == {T \in SUBSET S : Cardinality(T) = n}
Pickings(f) == IF f = <<>> THEN {<<>>} ELSE {g \in [DOMAIN f -> UNION {f[k] : k \in DOMAIN f}] : \A k \in DOMAIN f : g[k] \in f[k]}

\* Completes event e0 with what the design does; more: lookup requests sent at once.
Do(e0, more) ==
  LET pl == Plan(c, m, e0)
      ks == Asc(DOMAIN pl.needs)
      n == Len(ks)
      idA == Fresh("asks", n + Len(more), pl.m.asks)
      lookAsks == [i \in 1..Len(more) |-> [id |-> idA[n + i], k |-> e0.k, p |-> more[i]]]
      last == IF e0.e \notin {"answer", "recvask"} THEN {}
              ELSE LET k == m.asks[e0.a].k IN
                   IF m.asks[e0.a].j = 0 /\ k \in DOMAIN pl.m.looks /\ ~\E a \in DOMAIN pl.m.asks : pl.m.asks[a].k = k /\ pl.m.asks[a].j = 0
                   THEN {[k |-> k, res |-> NoVal]} ELSE {}
  IN \E alt \in Pickings(pl.needs) :
       LET own == [i \in 1..n |-> [id |-> idA[i], k |-> ks[i], p |-> alt[ks[i]]]]
           due == Due(c, pl, own)
       IN \E sel \in Subsets(1..Len(due), Sendable(c, pl, own)) :
            LET chosen == Asc(sel)
                idO == Fresh("outs", Len(chosen), pl.m.outs)
                gossip == [i \in 1..Len(chosen) |-> [id |-> idO[i], p |-> due[chosen[i]].p, ks |-> Asc(Keys(due[chosen[i]].items))]]
                e == [x |-> [asks |-> own \o lookAsks, gossip |-> gossip, looked |-> ListOf(pl.res \cup last), st |-> pl.m.st, stray |-> 0]] @@ e0
                r == Step(c, m, e)
            IN /\ m' = r.m
               /\ bad' = r.bad
               /\ ids' = [ids EXCEPT !.asks = @ + n + Len(more), !.outs = @ + Len(chosen) + (IF e0.e = "find" /\ e0.out # 0 THEN 1 ELSE 0),
                                     !.jobs = @ + (IF e0.e = "offer" /\ e0.job # 0 THEN 1 ELSE 0)]
               /\ c' = c

DoOffer(p, ks) ==
  /\ used.offers < MaxOffers
  /\ LET ok == Answerable(c, p, ks) \/ (Full(c, m) /\ p \in Range(c.peers))
         codes == Spoken(c, p, Codes(c, m, ks))
         yes == ok /\ \E i \in 1..Len(ks) : Yes(codes[i])
         j == IF yes THEN Fresh("jobs", 1, m.jobs)[1] ELSE 0
         pl == [e |-> "offer", p |-> p, ks |-> ks, res |-> IF ok THEN "codes" ELSE "none",
                codes |-> IF ok THEN codes ELSE <<>>, conn |-> yes, job |-> j]
     IN /\ Do(pl, <<>>)
        /\ open' = IF j = 0 THEN open ELSE [open EXCEPT !.jobs = @ \cup {j}]
  /\ used' = [used EXCEPT !.offers = @ + 1]
  /\ Log([op |-> "offer", p |-> p, ks |-> ks])

DoRecv(j, how, vs) ==
  /\ Do([e |-> "recv", j |-> j, how |-> how, vs |-> vs], <<>>)
  /\ open' = [open EXCEPT !.jobs = @ \ {j}]
  /\ UNCHANGED used
  /\ Log([op |-> "recv", j |-> j, how |-> how, vs |-> vs])

DoAnswer(a, how, v) ==
  LET e == [e |-> "answer", a |-> a, k |-> m.asks[a].k, how |-> how, v |-> v] IN
  /\ Do([opened |-> Streams(m, e)] @@ e, <<>>)
  /\ open' = IF Streams(m, e) THEN [open EXCEPT !.asks = @ \cup {a}] ELSE open
  /\ UNCHANGED used
  /\ Log([op |-> "answer", a |-> a, how |-> how, v |-> v])

DoRecvAsk(a, how, v) ==
  /\ Do([e |-> "recvask", a |-> a, how |-> how, v |-> v], <<>>)
  /\ open' = [open EXCEPT !.asks = @ \ {a}]
  /\ UNCHANGED used
  /\ Log([op |-> "recvask", a |-> a, how |-> how, v |-> v])

DoFind(p, k) ==
  /\ used.finds < MaxFinds
  /\ LET kind == FindKind(c, m, [p |-> p, k |-> k])
         o == IF kind = "conn" THEN Fresh("outs", 1, m.outs)[1] ELSE 0
     IN /\ Do([e |-> "find", p |-> p, k |-> k, res |-> kind, v |-> IF kind = "content" THEN Val(m.st, k) ELSE NoVal, out |-> o,
               names |-> IF kind = "enrs" /\ Aff(c, k) THEN Asc(m.conn \ {p}) ELSE <<>>], <<>>)
        /\ open' = IF o = 0 THEN open ELSE [open EXCEPT !.outs = @ \cup {o}]
  /\ used' = [used EXCEPT !.finds = @ + 1]
  /\ Log([op |-> "find", p |-> p, k |-> k])

DoTake(o, how, codes) ==
  LET e == [e |-> "take", o |-> o, how |-> how, codes |-> codes] IN
  /\ Do([opened |-> Taken(e)] @@ e, <<>>)
  /\ open' = IF Taken(e) THEN [open EXCEPT !.outs = @ \cup {o}] ELSE open
  /\ UNCHANGED used
  /\ Log([op |-> "take", o |-> o, how |-> how, codes |-> codes])

DoSent(o, how) ==
  /\ Do([e |-> "sent", o |-> o, how |-> how, wrote |-> IF how = "unopened" THEN <<>> ELSE m.outs[o].vs], <<>>)
  /\ open' = [open EXCEPT !.outs = @ \ {o}]
  /\ UNCHANGED used
  /\ Log([op |-> "sent", o |-> o, how |-> how])

DoLookup(k) ==
  /\ used.looks < MaxLooks
  /\ k \notin DOMAIN m.looks
  /\ ~\E a \in DOMAIN m.asks : m.asks[a].k = k
  /\ Do([e |-> "lookup", k |-> k], IF Has(m.st, k) THEN <<>> ELSE Asc(m.conn))
  /\ used' = [used EXCEPT !.looks = @ + 1]
  /\ UNCHANGED open
  /\ Log([op |-> "lookup", k |-> k])

-----------------------------------------------------------------------------
Lists(ks) == {f \in [1..Len(ks) -> UNION {Values(k) : k \in Range(ks)} \cup {NoVal}] : \A i \in 1..Len(ks) : f[i] \in Values(ks[i])}
Bools(n) == [1..n -> BOOLEAN]
Unasked == DOMAIN m.asks \ open.asks
Streaming(a) == m.asks[a].j = 0 /\ \E b \in open.asks : m.asks[b].j = 0 /\ m.asks[b].k = m.asks[a].k
Hows(a) == IF Streaming(a) THEN {"enrs"} ELSE IF m.asks[a].j = 0 THEN {"content", "enrs", "conn"} ELSE {"content", "enrs", "conn", "error"}

Next ==
  \/ \E p \in Askers, ks \in OfferLists : DoOffer(p, ks)
  \/ \E j \in open.jobs : \/ \E vs \in Lists(m.jobs[j].ks) : DoRecv(j, "items", vs)
                          \/ DoRecv(j, "broken", <<>>)
  \/ \E a \in Unasked, how \in {"content", "enrs", "conn", "error"} :
       /\ how \in Hows(a)
       /\ \E v \in (IF how = "content" THEN Values(m.asks[a].k) ELSE {NoVal}) : DoAnswer(a, how, v)
  \/ \E a \in open.asks : \/ \E v \in Values(m.asks[a].k) : DoRecvAsk(a, "value", v)
                          \/ DoRecvAsk(a, "broken", NoVal)
  \/ \E p \in Askers, k \in Keys0 : DoFind(p, k)
  \/ \E o \in DOMAIN m.outs \ open.outs : \/ \E codes \in Bools(Len(m.outs[o].vs)) : DoTake(o, "codes", codes)
                                         \/ DoTake(o, "error", <<>>)
  \/ \E o \in open.outs, how \in {"ok", "broken"} : DoSent(o, how)
  \/ \E k \in Range(c.look) : DoLookup(k)

Spec == Init /\ [][Next]_vars

Holds == bad = {}
Slots == SlotsOk(c, m)
Single == OneTransfer(m, open.jobs) /\ NoStuck(m, open.jobs)
Leaks == NoLeak(m, open.jobs)
Stored == OnlyValid(m)

-----------------------------------------------------------------------------
(* Small constants *)
V(k, q, big) == [k |-> k, q |-> q, big |-> big, n |-> 0]
MCValues(k) == {V(k, "canon", k = 1), V(k, "bad", FALSE)}
MCLists == {<<1>>, <<1, 2>>, <<1, 1>>}
Cfg(lim, near, cap) == [lim |-> lim, aff |-> <<1>>, want |-> <<1>>, v1 |-> <<1>>, near |-> near, peers |-> <<1, 2, 3>>,
                        cap |-> cap, gd |-> TRUE, poke |-> TRUE, look |-> <<>>, have |-> <<V(3, "canon", TRUE)>>]
MCConfigs == {Cfg(1, <<1>>, 2), Cfg(2, <<2>>, 1)}
LookValues(k) == {V(k, "canon", k = 1), V(k, "weak", FALSE), V(k, "bad", FALSE)}
LookConfigs == {[Cfg(l, <<1, 3>>, 1) EXCEPT !.look = <<1>>, !.aff = a] : l \in {1, 2}, a \in {<<1>>, <<>>}}
LookLists == {<<2>>}

-----------------------------------------------------------------------------
(* Longer random programs *)
\* (Mentions the state: TLC would evaluate it only once otherwise.)
One(S) == IF Len(hist) = 0 THEN {} ELSE {RandomElement(S)}
GKeys == 1..5
\* A value for key k from a random number.
GVal(k, r) == [k |-> IF r % 9 = 0 THEN (r % 5) + 1 ELSE k, q |-> IF r % 6 < 4 THEN "canon" ELSE IF r % 6 = 4 THEN "weak" ELSE "bad",
               big |-> r % 5 = 0, n |-> Len(hist)]
Draw == 1..270
GKey(r) == IF r = 40 THEN 0 ELSE (r % 5) + 1
\* Only peer 1 offers keys that are used in lookups.
GOffer(p, rs, n) == LET l == [i \in 1..n |-> GKey(rs[i])] IN
                    IF p = 1 THEN l ELSE SelectSeq(l, LAMBDA k : k \notin Range(c.look))
GFew(s, r) == IF r % 9 = 1 /\ Len(s) > 1 THEN Tail(s) ELSE IF r % 15 = 2 THEN s \o <<V(1, "bad", FALSE)>> ELSE s
GenNext ==
  \/ \E x \in {1, 2} : \E p \in One({1, 2, 3, 4}), n \in One(1..8), r1 \in One(1..40), r2 \in One(1..40), r3 \in One(1..40), r4 \in One(1..40) :
       LET ks == GOffer(p, <<r1, r2, r3, r4>>, IF n > 4 THEN 1 + (n % 2) ELSE n) IN ks # <<>> /\ DoOffer(IF r1 = 1 THEN 9 ELSE p, ks)
  \/ open.jobs # {} /\ \E j \in One(open.jobs), how \in One({"items", "items1", "items2", "items3", "broken", "garbled", "unopened"}), r1 \in One(Draw),
                          r2 \in One(Draw), r3 \in One(Draw), r4 \in One(Draw) :
        IF how \in {"broken", "garbled", "unopened"} THEN DoRecv(j, how, <<>>)
        ELSE DoRecv(j, "items", GFew([i \in 1..Len(m.jobs[j].ks) |-> GVal(m.jobs[j].ks[i], <<r1, r2, r3, r4>>[i])], r1 + r2))
  \/ Unasked # {} /\ \E a \in One(Unasked) : \E how \in One(Hows(a) \cup (IF m.asks[a].j = 0 THEN {} ELSE {"garbled"})), r \in One(Draw) :
        DoAnswer(a, how, GVal(m.asks[a].k, r))
  \/ open.asks # {} /\ \E a \in One(open.asks), how \in One({"value", "value1", "value2", "two", "garbled", "broken", "unopened"}), r \in One(Draw) :
        IF how \in {"two", "garbled"} /\ m.asks[a].p \notin Range(c.v1) THEN DoRecvAsk(a, "broken", NoVal)
        ELSE DoRecvAsk(a, IF how \in {"value1", "value2"} THEN "value" ELSE how, GVal(m.asks[a].k, r))
  \/ \E p \in One({1, 2, 3, 4, 9}), k \in One(0..7) : DoFind(p, IF k = 0 /\ Len(hist) % 3 # 0 THEN 6 ELSE k)
  \/ DOMAIN m.outs \ open.outs # {} /\ \E o \in One(DOMAIN m.outs \ open.outs), r \in One(Draw),
                                           how \in One({"codes", "codes1", "codes2", "badcodes", "garbled", "error"}) :
        IF how \in {"badcodes", "garbled", "error"} THEN DoTake(o, how, <<>>)
        ELSE DoTake(o, "codes", [i \in 1..Len(m.outs[o].vs) |-> (r + i * (r % 7)) % 3 # 0])
  \/ open.outs # {} /\ \E o \in One(open.outs), how \in One({"ok", "unopened", "broken", "short", "unclosed"}) : DoSent(o, how)
  \/ \E k \in Range(c.look) : DoLookup(k)
GenSpec == Init /\ [][GenNext]_vars

GCfg(lim, aff, want, v1, near, cap, gd, poke, look) ==
  [lim |-> lim, aff |-> aff, want |-> want, v1 |-> v1, near |-> near, peers |-> <<1, 2, 3, 4>>, cap |-> cap, gd |-> gd, poke |-> poke,
   look |-> look, have |-> <<V(6, "canon", TRUE), V(7, "canon", FALSE)>>]
GenConfigs ==
  {GCfg(l, aff, want, v1, near, cap, gd, poke, look) :
     l \in {1, 2, 3}, aff \in {<<1, 2, 3, 4, 5, 6>>, <<1, 2, 4>>}, want \in {<<1, 2, 3, 4, 5, 6>>, <<1, 2, 3, 6>>},
     v1 \in {<<1, 2, 3, 4>>, <<1, 3>>}, near \in {<<1, 2, 3, 4>>, <<2, 4>>}, cap \in {3, 9}, gd \in BOOLEAN, poke \in BOOLEAN,
     look \in {<<>>, <<4>>}}
GenValues(k) == {}

Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
