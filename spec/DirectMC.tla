------------------------------ MODULE DirectMC ------------------------------
(* All histories of a few calls, with everything their peers can do, and the *)
(* design followed: the world answers each step as the design says.          *)
EXTENDS Direct

CONSTANTS MaxCalls, Kinds, Few
VARIABLES m, told, sent, bad

vars == <<m, told, sent, bad>>
\* peer 1 speaks the newest version, 2 the oldest, 3 none
C == [old |-> <<2>>, odd |-> <<3>>, tab |-> <<1>>, rad |-> 9]
Good(k) == [Nothing EXCEPT !.k = k, !.q = "canon"]
Wrong(k) == [Nothing EXCEPT !.k = k + 1, !.q = "canon"]
Bad(k) == [Nothing EXCEPT !.k = k, !.q = "bad"]
Codes0 == {<<0, 0>>, <<0, 1>>, <<5, 3>>} \cup (IF Few THEN {} ELSE {<<2, 0>>})
Lists == {<<0>>, <<>>, <<3, 3>>, <<257>>}

Quiet == [out |-> <<>>, opened |-> <<>>, done |-> <<>>, stray |-> 0]
With(call, r) == [call |-> call, res |-> r.res, v |-> r.v, utp |-> r.utp, names |-> r.names, codes |-> r.codes, seq |-> r.seq, r |-> r.r]
\* what a faithful node does at e
Seen(e, st) ==
  LET L == st.m[e.call]
  IN [Quiet EXCEPT !.out = IF e.e = "call" /\ L.ph = "asked"
                             THEN <<[p |-> L.p, kind |-> Wire(L.kind), ks |-> L.ks, ds |-> L.ds, ext |-> Type(L.ext), r |-> IF L.ext = 2 THEN L.r ELSE 9]>> ELSE <<>>,
                   !.opened = IF st.open THEN <<e.call>> ELSE <<>>,
                   !.done = IF st.res.res = "none" THEN <<>> ELSE <<With(e.call, st.res)>>]
Do(e0) ==
  LET pre == Step(C, m, e0)
      L == pre.m[e0.call]
      sends == e0.e = "stream" /\ Offer(L.kind)
      e == [e0 EXCEPT !.x = Seen(e0, pre), !.sent = sends /\ e0.how # "unopened",
                      !.wrote = IF sends /\ e0.how # "unopened" THEN Taken(L.codes, L.vs) ELSE <<>>]
      st == Step(C, m, e)
  IN /\ m' = st.m
     /\ told' = IF e.e = "call" THEN Append(told, IF st.res.res = "none" THEN <<>> ELSE <<st.res>>)
                ELSE IF st.res.res = "none" THEN told ELSE [told EXCEPT ![e.call] = Append(@, st.res)]
     /\ sent' = IF e.e = "call" THEN Append(sent, [w |-> <<>>, how |-> "no"])
                ELSE IF e.e = "stream" THEN [sent EXCEPT ![e.call] = [w |-> e.wrote, how |-> e.how]] ELSE sent
     /\ bad' = bad \cup Clauses(C, m, e, st)

Base == [e |-> "", call |-> 0, kind |-> "", p |-> 0, ks |-> <<>>, vs |-> <<>>, ds |-> <<>>, ext |-> 0, how |-> "", form |-> "", rs |-> <<>>,
         codes |-> <<>>, v |-> Nothing, seq |-> 1, r |-> 7, x |-> Quiet, sent |-> FALSE, wrote |-> <<>>]
Call == /\ Len(m) < MaxCalls
        /\ \E kind \in Kinds, p \in 1..3, ds \in Lists, ext \in {0, 2, 3} :
             /\ (kind # "ping" => ext = 0)
             /\ (kind # "nodes" => ds = <<0>>)
             /\ Do([Base EXCEPT !.e = "call", !.call = Len(m) + 1, !.kind = kind, !.p = p, !.ext = ext,
                                !.ks = IF kind \in {"ping", "nodes"} THEN <<>> ELSE IF kind \in {"content", "one"} THEN <<5>> ELSE <<5, 7>>,
                                !.vs = IF Offer(kind) THEN IF kind = "one" THEN <<Good(5)>> ELSE <<Good(5), Good(7)>> ELSE <<>>,
                                !.ds = IF kind = "nodes" THEN ds ELSE <<>>])
Reply == \E i \in DOMAIN m :
           /\ m[i].ph = "asked"
           /\ \E how \in {"ok", "error"}, form \in {"content", "conn", "enrs"}, v \in {Good(5), Wrong(5), Bad(5)}, q \in Codes0 :
                /\ (m[i].kind # "content" \/ how # "ok" => form = "content")
                /\ (form # "content" \/ m[i].kind # "content" => v = Good(5))
                /\ (how # "ok" \/ ~Offer(m[i].kind) => q = <<0, 0>>)
                /\ Do([Base EXCEPT !.e = "reply", !.call = i, !.how = how, !.form = form, !.v = v, !.rs = <<2, 3>>,
                                   !.codes = IF m[i].kind = "one" THEN <<q[1]>> ELSE q])
Stream == \E i \in DOMAIN m :
            /\ m[i].ph = "moving"
            /\ \E how \in {"ok", "broken", "unopened"}, v \in {Good(5), Wrong(5), Bad(5)} :
                 /\ (m[i].kind # "content" => v = Good(5))
                 /\ Do([Base EXCEPT !.e = "stream", !.call = i, !.how = how, !.v = v])

Init == m = <<>> /\ told = <<>> /\ sent = <<>> /\ bad = {}
Next == Call \/ Reply \/ Stream
Spec == Init /\ [][Next]_vars

\* a faithful node breaks nothing
Faithful == bad = {}
\* a result, and only one, by the time the call is over
Once == \A i \in DOMAIN m : /\ Len(told[i]) <= 1
                            /\ (m[i].ph = "over" => Len(told[i]) = 1)
                            /\ (m[i].ph = "asked" => told[i] = <<>>)
                            /\ (m[i].ph = "moving" => (told[i] # <<>> <=> m[i].kind = "offer"))
Sound == \A i \in DOMAIN m : \A j \in DOMAIN told[i] :
           LET r == told[i][j] IN
             /\ (r.res = "content" => m[i].kind = "content" /\ Valid(m[i].ks[1], r.v))
             /\ (r.res = "codes" => Offer(m[i].kind) /\ Len(r.codes) = Len(m[i].ks))
             /\ (r.res = "failed" => m[i].kind \in {"trace", "one"} /\ Some(m[i].codes))
             /\ (r.res = "codes" /\ m[i].kind # "offer" => ~Some(m[i].codes) \/ sent[i].how = "ok")
Exact == \A i \in DOMAIN m : sent[i].w # <<>> =>
           /\ Len(sent[i].w) = Cardinality({j \in DOMAIN m[i].codes : m[i].codes[j] = 0})
           /\ \A v \in Range(sent[i].w) : \E j \in DOMAIN m[i].vs : m[i].vs[j] = v /\ m[i].codes[j] = 0
=============================================================================
