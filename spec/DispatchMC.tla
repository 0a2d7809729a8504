----------------------------- MODULE DispatchMC ------------------------------
(* Every set of networks and bursts of requests and events: what the         *)
(* dispatcher of the design delivers, and programs for the real one.         *)
EXTENDS Dispatch, Json, IOUtils

CONSTANTS Depth, Draw

VARIABLES c, hist, bad
vars == <<c, hist, bad>>

Configs == {x \in [Nets -> {"on", "off", "gone"}] : \E n \in Nets : x[n] # "off"}
Protocols == {"history", "state", "beacon", "utp", "newhistory", "indices", "verkle", "txs", "foreign", "empty", "short", "long", "upper"}
Dests == {<<>>, <<"history">>, <<"state">>, <<"beacon">>, <<"beacon", "beacon">>, <<"state", "history">>, <<"history", "beacon", "state">>, <<"utp", "state">>, <<"indices">>}
Items == [what : {"talk"}, net : Protocols, all : {FALSE}, to : {<<>>}]
         \cup [what : {"event"}, net : Nets, all : {TRUE}, to : {<<>>}]
         \cup [what : {"event"}, net : Nets, all : {FALSE}, to : Dests]

One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}

RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ListOf(S \ {x})
Delivered(its) == LET D[i \in 0..Len(its)] ==
                        IF i = 0 THEN <<>> ELSE D[i - 1] \o LET l == ListOf(Due(c, its[i])) IN
                          [x \in 1..Len(l) |-> [net |-> l[x], what |-> its[i].what, id |-> its[i].id]]
                  IN D[Len(its)]

Burst(its) ==
  LET n == [i \in 1..Len(its) |-> [id |-> i] @@ its[i]] IN
  /\ hist' = Append(hist, [op |-> "burst", items |-> its])
  /\ bad' = BurstBad(c, [items |-> n, got |-> Delivered(n)])
  /\ c' = c

Init == /\ c \in Configs
        /\ hist = <<[op |-> "init", c |-> c]>>
        /\ bad = {}
Next == /\ Len(hist) < Depth
        /\ IF Draw
           THEN \E a \in One(Items), b \in One(Items), d \in One(Items), k \in One(1..3) : Burst(SubSeq(<<a, b, d>>, 1, k))
           ELSE \E a \in Items, b \in Items : Burst(<<a, b>>)
Spec == Init /\ [][Next]_vars

Holds == bad = {}
\* A talk request has one place to go at most.
OnePlace == \A i \in Items : i.what = "talk" => Cardinality(Due(c, i)) <= 1
Emit == \/ Len(hist) < Depth
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
