------------------------------- MODULE Direct -------------------------------
(***************************************************************************)
(* Requests to one named peer, made on behalf of the node's user, several   *)
(* at a time.                                                               *)
(*                                                                          *)
(* Configuration c: old and odd (peers that speak only the oldest protocol  *)
(* version, or none that this node speaks), tab (peers in the table), rad   *)
(* (the node's radius).                                                     *)
(* A call has a kind: "ping", "nodes", "content", "offer" (reports what was *)
(* accepted), "trace" (reports how the transfer ended), "one" (a trace of   *)
(* one item).  It is "asked" until its peer has answered, "moving" while a  *)
(* transfer at the announced connection is under way, then "over".  The     *)
(* caller of an "offer" has its result when the transfer begins.            *)
(*                                                                          *)
(* The number of a call is also that of the connection its peer announces.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

Nothing == [k |-> 0, q |-> "none", big |-> FALSE, n |-> 0]
Valid(k, v) == v.k = k /\ v.q \in {"canon", "weak"}
Offer(kind) == kind \in {"offer", "trace", "one"}
Wire(kind) == IF Offer(kind) THEN "offer" ELSE kind

\* results: what the caller learns
Blank == [res |-> "none", v |-> Nothing, utp |-> FALSE, names |-> <<>>, codes |-> <<>>, seq |-> 0, r |-> 0]
Error == [Blank EXCEPT !.res = "error"]
Failed == [Blank EXCEPT !.res = "failed"]
Pong(e) == [Blank EXCEPT !.res = "pong", !.seq = e.seq, !.r = e.r]
Names(res, rs) == [Blank EXCEPT !.res = res, !.names = rs]
Found(v, utp) == [Blank EXCEPT !.res = "content", !.v = v, !.utp = utp]
Codes(q) == [Blank EXCEPT !.res = "codes", !.codes = q]

Distances(ds) == /\ Len(ds) \in 1..256
                 /\ \A i \in DOMAIN ds : ds[i] <= 256
                 /\ Cardinality(Range(ds)) = Len(ds)
\* A ping says which extension it carries, and perhaps what is in it; asked for are
\*   0 what is usual, 1 a radius, 2 this radius, 7 a radius and a count of headers,
\*   and what cannot be sent: 3 one thing as another, 4 something unnamed, 5 an error, 6 something unknown.
Type(ext) == CASE ext = 0 -> 0 [] ext = 7 -> 2 [] OTHER -> 1
\* Nothing is sent where the answer could not be understood, or the request not be put.
Refused(c, e) == \/ e.kind = "nodes" /\ ~Distances(e.ds)
                 \/ e.kind = "ping" /\ e.ext \in 3..6
                 \/ e.kind \in {"content", "offer"} /\ e.p \in Range(c.odd)

\* The oldest version tells only which items are accepted.
Told(c, p, codes) == IF p \in Range(c.old) THEN [i \in DOMAIN codes |-> IF codes[i] = 0 THEN 0 ELSE 1] ELSE codes
Some(codes) == \E i \in DOMAIN codes : codes[i] = 0
RECURSIVE Taken(_, _)
Taken(codes, vs) == IF codes = <<>> THEN <<>>
                    ELSE (IF codes[1] = 0 THEN <<vs[1]>> ELSE <<>>) \o Taken(Tail(codes), Tail(vs))

\* What an answer leads to: [res: what the caller is told, none if it goes on, open: a transfer begins]
Then(res, open) == [res |-> res, open |-> open]
Answer(c, L, e) ==
  IF e.how # "ok" THEN Then(Error, FALSE)
  ELSE CASE L.kind = "ping" -> Then(Pong(e), FALSE)
         [] L.kind = "nodes" -> Then(Names("nodes", e.rs), FALSE)
         [] L.kind = "content" ->
              (CASE e.form = "content" -> Then(IF Valid(L.ks[1], e.v) THEN Found(e.v, FALSE) ELSE Error, FALSE)
                 [] e.form = "conn" -> Then(Blank, TRUE)
                 [] OTHER -> Then(Names("enrs", e.rs), FALSE))
         [] L.kind = "offer" -> Then(Codes(Told(c, L.p, e.codes)), Some(e.codes))
         [] OTHER -> IF L.p \in Range(c.odd) THEN Then(Error, FALSE)
                     ELSE IF Some(e.codes) THEN Then(Blank, TRUE)
                     ELSE Then(Codes(Told(c, L.p, e.codes)), FALSE)
\* What the end of a transfer leads to.
Moved(c, L, e) ==
  IF L.kind = "content" THEN IF e.how = "ok" /\ Valid(L.ks[1], e.v) THEN Found(e.v, TRUE) ELSE Error
  ELSE IF L.kind = "offer" THEN Blank
  ELSE IF e.how = "ok" THEN Codes(Told(c, L.p, L.codes)) ELSE Failed

New(c, e) == [kind |-> e.kind, p |-> e.p, ks |-> e.ks, vs |-> e.vs, ds |-> e.ds, ext |-> e.ext, r |-> e.r,
              ph |-> IF Refused(c, e) THEN "over" ELSE "asked", codes |-> <<>>]

Step(c, m, e) ==
  CASE e.e = "call" ->
         LET L == New(c, e)
         IN [m |-> Append(m, L), res |-> IF L.ph = "over" THEN Error ELSE Blank, open |-> FALSE]
    [] e.e = "reply" ->
         LET L == m[e.call]
             a == Answer(c, L, e)
         IN [m |-> [m EXCEPT ![e.call] = [L EXCEPT !.ph = IF a.open THEN "moving" ELSE "over",
                                                    !.codes = IF Offer(L.kind) THEN e.codes ELSE <<>>]],
             res |-> a.res, open |-> a.open]
    [] e.e = "stream" ->
         [m |-> [m EXCEPT ![e.call].ph = "over"], res |-> Moved(c, m[e.call], e), open |-> FALSE]

-----------------------------------------------------------------------------
(* What was observed *)

Mine(c, L, o) ==
              /\ o.p = L.p /\ o.kind = Wire(L.kind)
              /\ o.ks = (IF L.kind = "content" \/ Offer(L.kind) THEN L.ks ELSE <<>>)
              /\ o.ds = (IF L.kind = "nodes" THEN L.ds ELSE <<>>)
              /\ (L.kind = "ping" => o.ext = Type(L.ext) /\ o.r = (IF L.ext = 2 THEN L.r ELSE c.rad))
\* The service asks peers for signs of life and for records on its own.
Own(o) == o.kind \in {"ping", "nodes"}

Plain(d) == [res |-> d.res, v |-> d.v, utp |-> d.utp, names |-> d.names, codes |-> d.codes, seq |-> d.seq, r |-> d.r]
Got(e) == {d \in Range(e.x.done) : d.call = e.call}

Clauses(c, m, e, st) ==
  LET got == Got(e)
      L == st.m[e.call]
      req == SelectSeq(e.x.out, LAMBDA o : Mine(c, L, o))
      other == SelectSeq(e.x.out, LAMBDA o : ~Mine(c, L, o))
      asks == e.e = "call" /\ L.ph = "asked"
      reported == Len(e.x.done)
      sends == e.e = "stream" /\ Offer(L.kind)
  IN Clause("N12", asks => req # <<>>, "the request does not go to the peer named, or not unchanged")
     \cup Clause("N12", asks /\ req # <<>> => Len(req) = 1 \/ Own(req[1]), "the request is sent more than once")
     \cup Clause("N12", ~asks => \A i \in DOMAIN req : Own(req[i]), "a request is sent that nobody made")
     \cup Clause("N12", \A i \in DOMAIN other : Own(other[i]), "a request is sent that nobody made")
     \cup Clause("N12", reported = Cardinality(got), "a call ends that nothing happened to")
     \cup Clause("N12", st.res.res # "none" => got # {}, "the caller gets no result")
     \cup Clause("N12", st.res.res = "none" => got = {}, "the caller gets a result too early, or a second one")
     \cup Clause("N12", got # {} /\ st.res.res = "error" => \A d \in got : d.res = "error", "something is returned that should be an error")
     \cup Clause("N12", got # {} /\ st.res.res \in {"pong", "nodes", "enrs"} => \A d \in got : Plain(d) = st.res, "the answer is not returned as it was given")
     \cup Clause("N12", got # {} /\ st.res.res = "content" => \A d \in got : Plain(d) = st.res, "valid content is not returned as it was given")
     \cup Clause("N12", got # {} /\ st.res.res \in {"codes", "failed"} => \A d \in got : Plain(d) = st.res, "the report on the offer is wrong")
     \cup Clause("N12", Range(e.x.opened) = (IF st.open THEN {e.call} ELSE {}) /\ e.x.stray = 0, "transfers are not opened at the connection announced, or without need")
     \cup Clause("N12", sends => (e.sent <=> e.how # "unopened"), "nothing is sent over an open connection")
     \cup Clause("N12", sends /\ e.sent => e.wrote = Taken(L.codes, L.vs), "what is sent is not what was accepted, in the order offered")

Follow(c, m, e) ==
  IF e.e = "panic" THEN {[s |-> m, bad |-> {<<"ANY", "the code panicked">>}]}
  ELSE LET st == Step(c, m, e) IN {[s |-> st.m, bad |-> Clauses(c, m, e, st)]}
=============================================================================
