------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* Protocol messages and ping payloads.  A message is [m, f]: its number    *)
(* and its fields, each field being a sequence of byte strings:             *)
(*   0 ping, 1 pong   sequence number, payload type, payload                *)
(*   2 find nodes     the distances                                         *)
(*   3 nodes          total, the records                                    *)
(*   4 find content   the key                                               *)
(*   5 content        kind, then connection id, content or records          *)
(*   6 offer          the keys                                              *)
(*   7 accept         connection id, codes                                  *)
(* Records are given by their number in c.recs, which holds their bytes.    *)
(***************************************************************************)
EXTENDS Codec

MaxPayload == 1100
MaxInfo == 200
MaxCaps == 400
MaxText == 300

Recs(c, l) == [i \in 1..Len(l) |-> c.recs[l[i][1]]]
\* The numbers of the records in a list; 0 for bytes that are none of them.
Numbered(c, items) ==
  {[i \in 1..Len(items) |->
     IF \A j \in 1..Len(c.recs) : c.recs[j] # items[i] THEN <<0>>
     ELSE <<CHOOSE j \in 1..Len(c.recs) : c.recs[j] = items[i]>>]}
\* Whether other bytes make up a record is for the records' own format to say.
Strange(x) == /\ x.m = 3 \/ (x.m = 5 /\ x.f[1][1] = <<2>>)
              /\ \E i \in 1..Len(x.f[2]) : x.f[2][i] = <<0>>

Layout(m) == CASE m \in {0, 1} -> <<8, 2, 0>> [] m = 3 -> <<1, 0>> [] m = 7 -> <<2, 0>> [] OTHER -> <<0>>

EncodeMsg(c, x) ==
  LET f == x.f IN
  <<x.m>> \o CASE x.m \in {0, 1} -> Pack(Layout(x.m), <<f[1][1], f[2][1], f[3][1]>>)
               [] x.m = 2 -> Pack(Layout(2), <<Glue(f[1])>>)
               [] x.m = 3 -> Pack(Layout(3), <<f[1][1], PackList(Recs(c, f[2]))>>)
               [] x.m = 4 -> Pack(Layout(4), <<f[1][1]>>)
               [] x.m = 5 -> f[1][1] \o (IF f[1][1] = <<2>> THEN PackList(Recs(c, f[2])) ELSE f[2][1])
               [] x.m = 6 -> Pack(Layout(6), <<PackList(f[1])>>)
               [] x.m = 7 -> Pack(Layout(7), <<f[1][1], f[2][1]>>)

DecodeMsg(c, b) ==
  IF b = <<>> \/ b[1] > 7 THEN {}
  ELSE LET m == b[1]
           r == Tail(b)
           msg(f) == [m |-> m, f |-> f]
       IN IF m = 5
          THEN IF r = <<>> THEN {}
               ELSE CASE r[1] = 0 -> IF Len(r) = 3 THEN {msg(<< <<<<0>>>>, <<Tail(r)>> >>)} ELSE {}
                      [] r[1] = 1 -> {msg(<< <<<<1>>>>, <<Tail(r)>> >>)}
                      [] r[1] = 2 -> UNION {{msg(<< <<<<2>>>>, n >>) : n \in Numbered(c, l)} : l \in UnpackList(Tail(r))}
                      [] OTHER -> {}
          ELSE UNION {CASE m \in {0, 1} -> IF Len(v[3]) > MaxPayload THEN {} ELSE {msg(<< <<v[1]>>, <<v[2]>>, <<v[3]>> >>)}
                        [] m = 2 -> {msg(<<d>>) : d \in Even(v[1], 2)}
                        [] m = 3 -> UNION {{msg(<< <<v[1]>>, n >>) : n \in Numbered(c, l)} : l \in UnpackList(v[2])}
                        [] m = 4 -> {msg(<< <<v[1]>> >>)}
                        [] m = 6 -> {msg(<<l>>) : l \in UnpackList(v[1])}
                        [] m = 7 -> {msg(<< <<v[1]>>, <<v[2]>> >>)}
                      : v \in Unpack(Layout(m), r)}

IsRequest(m) == m \in {0, 2, 4, 6}

MsgBad(c, e) ==
  LET x == [m |-> e.m, f |-> e.f] IN
  Clause("W04", e.raw = EncodeMsg(c, x), "the encoding of a message is not its number and its fields")
  \cup Clause("W04", e.back, "a message's encoding decodes to another message or is refused")
RawMsgBad(c, e) ==
  LET want == DecodeMsg(c, e.raw)
      got == {[m |-> e.res[i].m, f |-> e.res[i].f] : i \in 1..Len(e.res)}
  IN IF \E x \in want : Strange(x)
     THEN Clause("W04", \A x \in want, y \in got : y.m = x.m /\ Len(y.f[2]) = Len(x.f[2]), "a message is taken in part")
     ELSE
     Clause("W04", want = {} => got = {}, "bytes that encode no message are taken for one")
     \cup Clause("W04", want # {} => got # {}, "the encoding of a message is refused")
     \cup Clause("W04", (want # {} /\ got # {}) => got = want, "bytes are taken for another message")
     \cup Clause("W04", got # {} => e.again = e.raw, "a decoded message has another encoding")
     \cup Clause("W04", \A x \in got : e.request = IsRequest(x.m) /\ e.answer = ~IsRequest(x.m),
                 "an answer is taken for a request, or a request for an answer")

-----------------------------------------------------------------------------
(* Ping payloads by type: 0 what the client is, radius and extensions;      *)
(* 1 radius; 2 radius and number of headers; 65535 an error.                *)

Slash == 47
Dash == 45
Marks(b, ch) == {i \in 1..Len(b) : b[i] = ch}
\* name/version-commit/system-processor/language
ProperInfo(b) ==
  \/ b = <<>>
  \/ /\ \A i \in 1..Len(b) : b[i] < 128
     /\ Cardinality(Marks(b, Slash)) = 3
     /\ LET at == Marks(b, Slash)
            s1 == CHOOSE i \in at : \A j \in at : i <= j
            s3 == CHOOSE i \in at : \A j \in at : i >= j
            s2 == Only(at \ {s1, s3})
        IN /\ \E i \in Marks(b, Dash) : s1 < i /\ i < s2
           /\ Cardinality({i \in Marks(b, Dash) : s2 < i /\ i < s3}) = 1

PayLayout(t) == CASE t = <<0, 0>> -> <<0, 32, 0>> [] t = <<1, 0>> -> <<32>> [] t = <<2, 0>> -> <<32, 2>> [] t = <<255, 255>> -> <<2, 0>>
KnownPay == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<255, 255>>}
EncodePay(t, f) == Pack(PayLayout(t), [i \in 1..Len(f) |-> IF t = <<0, 0>> /\ i = 3 THEN Glue(f[i]) ELSE f[i][1]])
DecodePay(t, b) ==
  IF t \notin KnownPay \/ Len(b) > MaxPayload THEN {}
  ELSE UNION {CASE t = <<0, 0>> -> IF Len(v[1]) > MaxInfo \/ ~ProperInfo(v[1]) \/ Len(v[3]) > 2 * MaxCaps THEN {}
                                   ELSE {<< <<v[1]>>, <<v[2]>>, d >> : d \in Even(v[3], 2)}
                [] t = <<255, 255>> -> IF Len(v[2]) > MaxText THEN {} ELSE {<< <<v[1]>>, <<v[2]>> >>}
                [] t = <<1, 0>> -> {<< <<v[1]>> >>}
                [] t = <<2, 0>> -> {<< <<v[1]>>, <<v[2]>> >>}
              : v \in Unpack(PayLayout(t), b)}
PayBad(e) ==
  LET want == DecodePay(e.t, e.raw)
      got == {e.res[i] : i \in 1..Len(e.res)}
  IN Clause("W04", want = {} => got = {}, "bytes that are no payload of the type are taken for one")
     \cup Clause("W04", want # {} => got # {}, "a proper payload is refused")
     \cup Clause("W04", (want # {} /\ got # {}) => got = want, "a payload is taken for another one")
     \cup Clause("W04", got # {} => e.again = e.raw, "a decoded payload has another encoding")
     \cup Clause("W04", got # {} => e.json, "a payload does not survive its textual form")

\* An offer that carries its values goes out with all its keys, in order.
SendBad(c, e) ==
  LET raw == EncodeMsg(c, [m |-> 6, f |-> << [i \in 1..Len(e.items) |-> e.items[i][1]] >>]) IN
  Clause("W04", e.raw = raw /\ e.tracked = raw, "an offer with values does not become the offer of its keys")
\* What a client says about itself: f has name, version, commit, system, processor and language.
InfoBad(e) ==
  LET f == e.f
      b == f[1] \o <<Slash>> \o f[2] \o <<Dash>> \o f[3] \o <<Slash>> \o f[4] \o <<Dash>> \o f[5] \o <<Slash>> \o f[6]
  IN Clause("W04", e.raw = EncodePay(<<0, 0>>, << <<b>>, <<e.radius>>, e.caps >>), "the encoding of a description is not its parts")
     \cup Clause("W04", e.back, "a description decodes to another one or is refused")
\* Errors have fixed numbers and texts of a limited length.
ErrorBad(e) ==
  Clause("W04", e.fits = (e.n <= MaxText), "an error with a text of a proper length is refused, or one with a longer text is made")
  \cup Clause("W04", e.fits => e.raw = EncodePay(<<255, 255>>, << <<<<e.code, 0>>>>, <<[i \in 1..e.n |-> 66]>> >>),
              "the encoding of an error is not its number and its text")
=============================================================================
