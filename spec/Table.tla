------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* The peer table of one node: who is in it, with which record, radius and  *)
(* extensions, who is connected, and what follows from it: answers to node  *)
(* and content requests, pings and pongs, gossip and the start of lookups.  *)
(*                                                                          *)
(* Peers and keys are the first byte of their id (the node itself is 0; the *)
(* rest of a peer's id is one, that of a key zero).  Distances and radii    *)
(* are coded as four times the first byte plus 0, 1 or 3 for a rest of      *)
(* zero, one or all ones.                                                   *)
(*                                                                          *)
(* c holds net (whose ping extensions), lim (outgoing transfer slots), aff  *)
(* (keys that the radius applies to), have (stored [k, len]), r (own        *)
(* radius), len (size of the record of a peer by sequence number), own (of  *)
(* the node's own record).                                                  *)
(*                                                                          *)
(* The state m:                                                             *)
(*   tab   peer -> [seq, conn, rad, caps, hdr, pend] (caps {-1} and headers *)
(*         -1 as long as unknown; pend: waits for a place in its bucket)   *)
(*   sess  peer -> sequence number of the record its session came with      *)
(*   st    stored key -> length        outs  outgoing slots in use          *)
(*   r     own radius                                                       *)
(*   pend  request sent -> [kind, p, seq, ask: part of a lookup]            *)
(*   looks lookups asked for that have not ended                            *)
(*   cand  peers that lookups in progress may turn to                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Range(f) == {f[i] : i \in DOMAIN f}
Min(a, b) == IF a < b THEN a ELSE b
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

MaxRad == 4 * 255 + 3
Unknown == {-1}
MsgSize == 1171      \* one message
ListSize == 1165     \* content or records in one message

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Log(p) == IF p = 0 THEN 0 ELSE 248 + BitLen(p)
Dist(p, k) == 4 * (p ^^ k) + 1

Supported(c) == CASE c.net = "history" -> {0, 2, 65535}
                  [] c.net \in {"beacon", "state"} -> {0, 1, 65535}
                  [] OTHER -> {0, 1, 2, 65535}
Base(c) == Supported(c) \cap {1, 2}

Start(c) == [tab |-> <<>>, sess |-> <<>>, r |-> c.r, outs |-> 0, pend |-> <<>>, looks |-> {}, cand |-> {},
             st |-> [k \in {c.have[i].k : i \in 1..Len(c.have)} |->
                       (CHOOSE x \in Range(c.have) : x.k = k).len]]

Connected(m) == {p \in DOMAIN m.tab : m.tab[p].conn /\ ~m.tab[p].pend}
Fresh(s) == [seq |-> s, conn |-> TRUE, rad |-> MaxRad, caps |-> Unknown, hdr |-> -1, pend |-> FALSE]

-----------------------------------------------------------------------------
(* How the table moves *)

\* A request came from p.
Active(m, p) == IF p \in DOMAIN m.tab THEN [m EXCEPT !.tab[p].conn = TRUE]
                ELSE IF p \in DOMAIN m.sess THEN [m EXCEPT !.tab = (p :> Fresh(m.sess[p])) @@ @]
                ELSE m
\* p answered a request that was sent to its record number s.
Answered(m, p, s) == IF p \in DOMAIN m.tab THEN [m EXCEPT !.tab[p].conn = TRUE]
                     ELSE [m EXCEPT !.tab = (p :> Fresh(s)) @@ @]
Failed(m, p) == IF p \in DOMAIN m.tab THEN [m EXCEPT !.tab[p].conn = FALSE] ELSE m

RECURSIVE Learn(_, _)
Learn(m, rs) ==
  IF rs = <<>> THEN m
  ELSE LET x == rs[1]
           m1 == IF x.p = 0 THEN m
                 ELSE IF x.p \notin DOMAIN m.tab
                 THEN [m EXCEPT !.tab = (x.p :> [Fresh(x.seq) EXCEPT !.conn = FALSE]) @@ @]
                 ELSE IF m.tab[x.p].seq < x.seq THEN [m EXCEPT !.tab[x.p].seq = x.seq] ELSE m
       IN Learn(m1, Tail(rs))

Proper(ext, b) == \/ ext = 0 /\ b.kind = "caps"
                  \/ ext = 1 /\ b.kind = "radius"
                  \/ ext = 2 /\ b.kind = "history"
\* What a ping or pong from p says.
Told(c, m, p, ext, b) ==
  IF p \notin DOMAIN m.tab \/ ~Proper(ext, b) \/ ext \notin Supported(c) THEN m
  ELSE IF ext = 0 THEN [m EXCEPT !.tab[p].rad = b.r, !.tab[p].caps = Range(b.caps)]
  ELSE IF ext = 2 THEN [m EXCEPT !.tab[p].rad = b.r, !.tab[p].hdr = b.n]
  ELSE [m EXCEPT !.tab[p].rad = b.r]
\* A newer record is announced.
Newer(m, p, s) == p \in DOMAIN m.tab /\ m.tab[p].seq < s

\* The table as it is expected after event e.
Next1(c, m, e) ==
  CASE e.e = "session" -> [m EXCEPT !.sess = (e.p :> e.seq) @@ @]
    [] e.e = "ping" -> Told(c, Active(m, e.p), e.p, e.ext, e.body)
    [] e.e \in {"nodes", "find"} -> Active(m, e.p)
    [] e.e = "reply" ->
         LET m1 == IF e.what \in {"error", "garbled"} THEN Failed(m, e.p) ELSE Answered(m, e.p, m.pend[e.id].seq)
             m2 == CASE e.what = "pong" -> Told(c, m1, e.p, e.ext, e.body)
                     [] e.what \in {"nodes", "find"} -> Learn(m1, e.rs)
                     [] OTHER -> m1
         IN [m2 EXCEPT !.pend = Drop(@, e.id)]
    [] e.e = "add" -> IF e.p \in DOMAIN m.tab
                      THEN [m EXCEPT !.tab[e.p] = Fresh(e.seq)]
                      ELSE [m EXCEPT !.tab = (e.p :> Fresh(e.seq)) @@ @]
    [] e.e = "del" -> [m EXCEPT !.tab = Drop(@, e.p)]
    [] e.e = "radius" -> [m EXCEPT !.r = e.r]
    [] e.e = "done" -> [m EXCEPT !.outs = @ - 1]
    [] e.e = "gossip" -> IF e.k \in Range(c.aff) \/ e.k \in DOMAIN m.st THEN m
                         ELSE [m EXCEPT !.st = (e.k :> 9) @@ @]
    [] e.e = "lookup" -> [m EXCEPT !.looks = @ \cup {e.t}]
    [] OTHER -> m

-----------------------------------------------------------------------------
(* Answers *)

Size(c, m, p) == IF p = 0 THEN c.own ELSE c.len[p][m.tab[p].seq]

\* Who may be named to p at the given distances.
Nameable(m, p, ds) == {q \in Connected(m) \cup {0} : Log(q) \in ds} \ {p}

Names(c, m, e, may) ==
  LET got == {e.names[i].p : i \in 1..Len(e.names)} IN
  Clause("N07", got \subseteq may, "names a node that is not connected, not at the distance asked for, or the asking peer")
  \cup Clause("N07", Len(e.names) = Cardinality(got), "names a node twice")
  \cup Clause("N07", \A i \in 1..Len(e.names) : LET q == e.names[i].p IN
                       q \in DOMAIN m.tab \cup {0} => e.names[i].seq = IF q = 0 THEN 0 ELSE m.tab[q].seq,
              "hands out another record than the one kept")
  \cup Clause("N07", e.bytes <= MsgSize, "an answer is larger than a message")

NodesBad(c, m, e) ==
  LET may == Nameable(m, e.p, Range(e.ds))
      miss == may \ {e.names[i].p : i \in 1..Len(e.names)}
  IN Clause("N07", e.res = "nodes", "a node request is not answered")
     \cup Names(c, m, e, may)
     \cup Clause("N07", e.res = "nodes" /\ miss # {} => \E q \in miss : e.bytes + 4 + Size(c, m, q) > MsgSize,
                 "leaves out a connected node that there is room for")

\* Peers from the nearest to k on.
RECURSIVE Nearest(_, _)
Nearest(S, k) == IF S = {} THEN <<>>
                 ELSE LET x == CHOOSE x \in S : \A y \in S : Dist(x, k) <= Dist(y, k) IN <<x>> \o Nearest(S \ {x}, k)
RECURSIVE Weight(_, _, _)
Weight(c, m, l) == IF l = <<>> THEN 0 ELSE 4 + Size(c, m, l[1]) + Weight(c, m, Tail(l))
\* The longest beginning of the list that fits into a message.
Fitting(c, m, l) == LET n == CHOOSE n \in 0..Len(l) : Weight(c, m, SubSeq(l, 1, n)) <= ListSize
                                /\ (n = Len(l) \/ Weight(c, m, SubSeq(l, 1, n + 1)) > ListSize)
                    IN SubSeq(l, 1, n)

Free(c, m) == m.outs < c.lim
Closer(c, m, p, k) == IF k \in Range(c.aff) THEN Fitting(c, m, Nearest(Connected(m) \ {p}, k)) ELSE <<>>

FindBad(c, m, e) ==
  IF e.k = 0 THEN Clause("N09", e.res = "none", "a malformed content request is answered")
  ELSE IF e.k \in DOMAIN m.st /\ Free(c, m)
  THEN IF m.st[e.k] <= ListSize
       THEN Clause("N09", e.res = "content", "content that fits into a message is not sent in one")
            \cup Clause("N09", e.res = "content" => e.len = m.st[e.k] /\ e.same, "other content is sent")
            \cup Clause("N09", e.bytes <= MsgSize, "content sent in a message that is too large")
       ELSE Clause("N09", e.res = "conn" \/ (e.res = "none" /\ e.p \notin DOMAIN m.tab \cup DOMAIN m.sess),
                   "large content is not announced as a transfer")
            \cup Clause("N09", e.res = "conn" => e.wait, "nothing waits at the connection that is announced")
  ELSE Clause("N09", e.res = "enrs", "without content or a free slot no peers are named")
       \cup (IF e.res # "enrs" THEN {}
             ELSE Clause("N09", [i \in 1..Len(e.names) |-> e.names[i].p] = Closer(c, m, e.p, e.k),
                         "the peers named are not the nearest connected ones that fit, closest first")
                  \cup Names(c, m, e, Connected(m) \ {e.p})
                  \cup Clause("N09", e.bytes <= MsgSize, "peers are named in a message that is too large"))

\* The payload a node with radius r sends.
Body(c, r, ext, b) == /\ b.ext = ext
                      /\ b.r = IF ext = 65535 THEN 0 ELSE r
                      /\ b.kind = CASE ext = 0 -> "caps" [] ext = 1 -> "radius" [] ext = 2 -> "history" [] OTHER -> "error"
                      /\ Range(b.caps) = IF ext = 0 THEN Supported(c) ELSE {}
PongExt(c, ext) == IF ext \in Supported(c) THEN ext ELSE 65535
PingExt(c, caps) == LET both == Base(c) \cap caps IN
                    IF both = {} THEN 0 ELSE CHOOSE x \in both : \A y \in both : x >= y

PingBad(c, m, e) ==
  Clause("N11", e.res.kind # "none", "a ping is not answered")
  \cup (IF e.res.kind = "none" THEN {}
        ELSE Clause("N11", Body(c, m.r, PongExt(c, e.ext), e.res), "a ping is not answered in kind with the node's own radius")
             \cup Clause("N11", e.own, "a pong states another sequence number than that of the node's record"))

Interested(m, k) == {p \in Connected(m) : Dist(p, k) <= m.tab[p].rad}

\* Who gets k, out of those that are interested.
RightChoice(I, k, R) ==
  /\ R \subseteq I
  /\ IF Cardinality(I) <= 8 THEN R = I
     ELSE /\ Cardinality(R) = 8
          /\ LET l == Nearest(I, k) IN {l[1], l[2], l[3], l[4]} \subseteq R

GossipBad(c, m, e) ==
  LET sent == SelectSeq(e.x.out, LAMBDA o : o.kind = "offer")
      R == {sent[i].p : i \in 1..Len(sent)}
      all == Connected(m)
      I == IF e.k \in Range(c.aff) THEN Interested(m, e.k) ELSE all
  IN Clause("N07", R \subseteq all, "gossips to a peer that is not connected")
     \cup Clause("N08", R \subseteq I, "gossips to a peer that is not connected or not interested")
     \cup Clause("N08", Cardinality(R) = Len(sent) /\ \A i \in 1..Len(sent) : sent[i].ks = <<e.k>>, "an item is offered twice to a peer")
     \cup Clause("N08", R \subseteq I => IF e.k \in Range(c.aff) THEN RightChoice(I, e.k, R) ELSE Cardinality(R) = Min(8, Cardinality(I)),
                 "the closest interested peers and a few of the others are not those who get it")
     \cup Clause("N08", e.count = Len(sent), "states another number of peers than it offered to")
     \cup (IF e.k \in Range(c.aff) /\ Cardinality(I) <= 8
           THEN Clause("N11", R \cap {p \in all : TRUE} = I, "a radius that a peer has told is not the one used") ELSE {})

-----------------------------------------------------------------------------
(* What goes out with any event *)

OutBad(c, m0, m, e, cand) ==
  LET o == e.x.out
      asked == {i \in 1..Len(o) : o[i].kind = "nodes" /\ o[i].ds = <<0>>}
      wants == (e.e = "ping" \/ (e.e = "reply" /\ e.what = "pong")) /\ Newer(m, e.p, e.seq)
               /\ \E i \in 1..Len(e.x.table) : e.x.table[i].p = e.p
  IN UNION {IF o[i].kind = "ping"
            THEN (IF o[i].p \in DOMAIN m.tab
                  THEN Clause("N11", Body(c, m.r, PingExt(c, m.tab[o[i].p].caps), o[i].body),
                              "a peer is not pinged with the newest extension both support, or with another radius")
                  ELSE {})
            ELSE IF o[i].kind = "nodes" /\ o[i].ds # <<0>>
            THEN Clause("N07", o[i].p \in cand, "a lookup starts with a peer that is not connected")
            ELSE {} : i \in 1..Len(o)}
     \cup Clause("N07", wants => \E i \in asked : o[i].p = e.p, "a peer that announces a newer record is not asked for it")

TableBad(c, m0, m, e) ==
  LET t == e.x.table
      at(p) == t[CHOOSE i \in 1..Len(t) : t[i].p = p]
      both == {t[i].p : i \in 1..Len(t)} \cap DOMAIN m.tab
  IN UNION {LET w == at(p)
                x == m.tab[p]
                was == IF p \in DOMAIN m0.tab THEN m0.tab[p].seq ELSE 0
            IN IF e.e = "add" /\ e.p = p THEN {}
               ELSE Clause("N07", w.seq >= was, "a record is replaced by an older one")
                    \cup Clause("N07", w.seq = x.seq, "the record kept is not the newest one the node was given")
                    \cup Clause("N07", w.pend \/ w.conn = x.conn, "a peer counts as connected that is not, or the other way round")
                    \cup Clause("N11", w.rad = x.rad, "the radius kept for a peer is not the one it last told")
                    \cup Clause("N11", Range(w.caps) = x.caps, "the extensions kept for a peer are not those it last told")
                    \cup Clause("N11", w.hdr = x.hdr, "the number of headers kept for a peer is not the one it last told")
            : p \in both}

Waiting(m) == m.looks # {} \/ \E i \in DOMAIN m.pend : m.pend[i].ask

\* The state follows what was observed.
Step(c, m, e) ==
  LET busy == Waiting(m)
      m1 == Next1(c, m, e)
      told == IF e.e = "reply" /\ e.what \in {"nodes", "find"} THEN {e.rs[i].p : i \in 1..Len(e.rs)} ELSE {}
      t == e.x.table
      o == e.x.out
      \* with time those who wait get their places
      moved == {t[i].p : i \in {j \in 1..Len(t) : ~t[j].pend /\ t[j].conn /\ t[j].p \in DOMAIN m.tab}} \cap {p \in DOMAIN m.tab : m.tab[p].pend}
      start == IF e.e \in {"lookup", "tick"} THEN Connected(m1) \cup moved ELSE {}
      cand == IF busy THEN m.cand \cup told \cup start ELSE start
      seen == [p \in {t[i].p : i \in 1..Len(t)} |->
                 LET w == t[CHOOSE i \in 1..Len(t) : t[i].p = p] IN
                 [seq |-> w.seq, conn |-> w.conn, rad |-> w.rad, caps |-> Range(w.caps), hdr |-> w.hdr, pend |-> w.pend]]
      m2 == [m1 EXCEPT !.tab = seen,
                       !.outs = @ + (IF e.e = "find" /\ e.res = "conn" THEN 1 ELSE 0),
                       !.pend = [i \in {o[x].id : x \in {y \in 1..Len(o) : o[y].kind # "offer"}} |->
                                   LET q == o[CHOOSE x \in 1..Len(o) : o[x].id = i] IN
                                   [kind |-> q.kind, p |-> q.p, seq |-> q.seq, ask |-> q.kind = "nodes" /\ q.ds # <<0>>]] @@ @,
                       !.looks = @ \ {e.x.looked[i].t : i \in 1..Len(e.x.looked)},
                       !.cand = cand]
  IN [m |-> m2,
      bad |-> TableBad(c, m, m1, e) \cup OutBad(c, m, m1, e, cand)
              \cup CASE e.e = "ping" -> PingBad(c, m1, e)
                     [] e.e = "nodes" -> NodesBad(c, m1, e)
                     [] e.e = "find" -> FindBad(c, m1, e)
                     [] e.e = "gossip" -> GossipBad(c, m1, e)
                     [] e.e = "done" -> Clause("N09", e.k \in DOMAIN m.st /\ e.len = m.st[e.k], "other content is transferred than was asked for")
                     [] OTHER -> {}]
=============================================================================
