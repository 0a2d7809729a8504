------------------------------ MODULE TableMC --------------------------------
(* Every short history of a small table; what the design answers is checked  *)
(* with the clauses, and the table against what the peers last did.          *)
EXTENDS Table

CONSTANTS Peers, Seqs, Nets, MaxSteps, Rads

VARIABLES c, m, last, top, n, bad
vars == <<c, m, last, top, n, bad>>

Sizes == [p \in 1..255 |-> <<400, 300, 380>>]
Configs == {[net |-> x, lim |-> 1, aff |-> <<1, 2>>, have |-> <<[k |-> 1, len |-> 1165], [k |-> 2, len |-> 1166]>>,
             r |-> 7, len |-> Sizes, own |-> 390] : x \in Nets}

Init == /\ c \in Configs
        /\ m = Start(c)
        /\ last = [p \in Peers |-> "none"]    \* what was last heard of a peer
        /\ top = [p \in Peers |-> 0]          \* the newest record given for it while in the table
        /\ n = 0
        /\ bad = {}

RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o ListOf(S \ {x})
Rows(x) == LET l == ListOf(DOMAIN x.tab) IN
           [i \in 1..Len(l) |-> [x.tab[l[i]] EXCEPT !.caps = IF @ = Unknown THEN <<-1>> ELSE ListOf(@)] @@ [p |-> l[i]]]
NamesOf(x, l) == [i \in 1..Len(l) |-> [p |-> l[i], seq |-> IF l[i] = 0 THEN 0 ELSE x.tab[l[i]].seq]]
Id == 1 + Cardinality(DOMAIN m.pend)
NoBody == [ext |-> 0, kind |-> "junk", r |-> 0, caps |-> <<>>, n |-> 0]
OwnBody(ext) == [ext |-> ext, kind |-> CASE ext = 0 -> "caps" [] ext = 1 -> "radius" [] ext = 2 -> "history" [] OTHER -> "error",
                 r |-> IF ext = 65535 THEN 0 ELSE m.r, caps |-> IF ext = 0 THEN ListOf(Supported(c)) ELSE <<>>, n |-> 0]
Sent(kind, p, q, ds, ks, b) == [id |-> 0, kind |-> kind, p |-> p, seq |-> q, ds |-> ds, ks |-> ks, body |-> b]
Numbered(l) == LET free == ListOf(1..(Cardinality(DOMAIN m.pend) + Len(l)) \ DOMAIN m.pend) IN [i \in 1..Len(l) |-> [l[i] EXCEPT !.id = free[i]]]

Do(e0, out) ==
  LET m1 == Next1(c, m, e0)
      e == [x |-> [out |-> Numbered(out), table |-> Rows(m1), looked |-> <<>>]] @@ e0
      r == Step(c, m, e)
  IN /\ n < MaxSteps
     /\ n' = n + 1
     /\ m' = r.m
     /\ bad' = r.bad
     /\ c' = c
     /\ top' = [p \in Peers |-> IF p \in DOMAIN r.m.tab THEN
                  (IF p \notin DOMAIN m.tab \/ e0.e = "add" THEN r.m.tab[p].seq
                   ELSE IF r.m.tab[p].seq > top[p] THEN r.m.tab[p].seq ELSE top[p]) ELSE 0]
Heard(p) == last' = [last EXCEPT ![p] = "heard"]

Refresh(p, s) == IF Newer(m, p, s) THEN <<Sent("nodes", p, m.tab[p].seq, <<0>>, <<>>, NoBody)>> ELSE <<>>
Bodies == {[kind |-> "caps", r |-> x, caps |-> y, n |-> 0] : x \in Rads, y \in {<<0, 1>>, <<0, 2>>, <<1, 2>>}}
          \cup {[kind |-> "radius", r |-> x, caps |-> <<>>, n |-> 0] : x \in Rads} \cup {[kind |-> "history", r |-> 0, caps |-> <<>>, n |-> x] : x \in {0, 1}} \cup {[kind |-> "junk", r |-> 0, caps |-> <<>>, n |-> 0]}

DoSession(p, s) == Do([e |-> "session", p |-> p, seq |-> s], <<>>) /\ UNCHANGED last
DoPing(p, s, ext, b) ==
  /\ Do([e |-> "ping", p |-> p, seq |-> s, ext |-> ext, body |-> b, res |-> OwnBody(PongExt(c, ext)), own |-> TRUE],
        IF p \in DOMAIN m.tab THEN Refresh(p, s) ELSE IF p \in DOMAIN m.sess /\ m.sess[p] < s
        THEN <<Sent("nodes", p, m.sess[p], <<0>>, <<>>, NoBody)>> ELSE <<>>)
  /\ Heard(p)
\* Connected nodes at the distances asked for, as many as there is room for.
DoNodes(p, ds) ==
  LET a == Active(m, p)
      may == ListOf(Nameable(a, p, Range(ds)))
      l == Fitting(c, a, may)
  IN /\ Do([e |-> "nodes", p |-> p, ds |-> ds, res |-> "nodes", names |-> NamesOf(a, l), bytes |-> 6 + Weight(c, a, l)], <<>>)
     /\ Heard(p)
DoFind(p, k) ==
  LET a == Active(m, p)
      l == Closer(c, a, p, k)
      has == k \in DOMAIN m.st /\ Free(c, m)
      big == has /\ m.st[k] > ListSize
      res == IF k = 0 THEN "none" ELSE IF big THEN IF p \in DOMAIN a.tab THEN "conn" ELSE "none" ELSE IF has THEN "content" ELSE "enrs"
  IN /\ Do([e |-> "find", p |-> p, k |-> k, res |-> res, len |-> IF res = "content" THEN m.st[k] ELSE 0, same |-> TRUE, wait |-> res = "conn",
            names |-> IF res = "enrs" THEN NamesOf(a, l) ELSE <<>>, bytes |-> IF res = "enrs" THEN 2 + Weight(c, a, l) ELSE IF res = "content" THEN 2 + m.st[k] ELSE 4],
           <<>>)
     /\ Heard(p)
DoDone == m.outs > 0 /\ (\E k \in DOMAIN m.st : m.st[k] > ListSize /\ Do([e |-> "done", k |-> k, len |-> m.st[k]], <<>>)) /\ UNCHANGED last
DoTick == /\ Do([e |-> "tick"],
                LET l == ListOf(DOMAIN m.tab) IN [i \in 1..Len(l) |-> Sent("ping", l[i], m.tab[l[i]].seq, <<>>, <<>>, OwnBody(PingExt(c, m.tab[l[i]].caps)))])
          /\ Cardinality(DOMAIN m.pend) < 3
          /\ UNCHANGED last
DoLookup(q) == /\ Cardinality(DOMAIN m.pend) < 3
               /\ LET l == Nearest(Connected(m), q) IN
                  Do([e |-> "lookup", t |-> q], [i \in 1..Min(3, Len(l)) |-> Sent("nodes", l[i], m.tab[l[i]].seq, <<256>>, <<>>, NoBody)])
               /\ UNCHANGED last
DoReply(i, what, s, ext, b, rs) ==
  LET p == m.pend[i].p
      m1 == Answered(m, p, m.pend[i].seq)
  IN /\ Do([e |-> "reply", id |-> i, p |-> p, what |-> what, seq |-> s, ext |-> ext, body |-> b, rs |-> rs],
           IF what = "pong" /\ Newer(m1, p, s)
           THEN <<Sent("nodes", p, m1.tab[p].seq, <<0>>, <<>>, NoBody)>> ELSE <<>>)
     /\ last' = [last EXCEPT ![p] = IF what \in {"error", "garbled"} THEN "failed" ELSE "heard"]
DoAdd(p, s) == Do([e |-> "add", p |-> p, seq |-> s], <<>>) /\ Heard(p)
DoDel(p) == Do([e |-> "del", p |-> p], <<>>) /\ UNCHANGED last
DoGossip(k) ==
  LET I == IF k \in Range(c.aff) THEN Interested(m, k) ELSE Connected(m)
      l == ListOf(I)
  IN /\ Do([e |-> "gossip", k |-> k, count |-> Len(l)], [i \in 1..Len(l) |-> Sent("offer", l[i], m.tab[l[i]].seq, <<>>, <<k>>, NoBody)])
     /\ UNCHANGED last

Next ==
  \/ \E p \in Peers, s \in Seqs : DoSession(p, s) \/ DoAdd(p, s)
  \/ \E p \in Peers, s \in Seqs, ext \in {0, 1, 2, 3}, b \in Bodies : DoPing(p, s, ext, b)
  \/ \E p \in Peers, ds \in {<<0>>, <<0, 250, 256>>, <<249>>} : DoNodes(p, ds)
  \/ \E p \in Peers, k \in 0..3 : DoFind(p, k)
  \/ \E p \in Peers : DoDel(p)
  \/ DoDone \/ DoTick
  \/ \E q \in {9} : DoLookup(q)
  \/ \E k \in 1..3 : DoGossip(k)
  \/ \E i \in DOMAIN m.pend :
       \/ DoReply(i, "error", 0, 0, NoBody, <<>>)
       \/ m.pend[i].kind = "ping" /\ \E s \in Seqs, b \in Bodies, ext \in {0, 1, 2} : DoReply(i, "pong", s, ext, b, <<>>)
       \/ m.pend[i].kind = "nodes" /\ \E q \in Peers \cup {0}, s \in Seqs : DoReply(i, "nodes", 0, 0, NoBody, <<[p |-> q, seq |-> s]>>)

Spec == Init /\ [][Next]_vars

Holds == bad = {}
\* Whoever counts as connected was heard from and has not failed since.
Live == \A p \in Connected(m) : last[p] = "heard"
\* The record kept is the newest of those it was given.
Newest == \A p \in DOMAIN m.tab : m.tab[p].seq = top[p]
Bounded == m.outs <= c.lim
Sane == \A p \in DOMAIN m.tab : m.tab[p].rad \in Rads \cup {MaxRad} /\ p # 0
View == <<c, m, last, top, n>>
=============================================================================
