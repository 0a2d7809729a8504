----------------------------- MODULE MessagesMC -----------------------------
(* Messages and payloads with telling fields, and damaged encodings.  The    *)
(* damage is given as edits, which the driver makes to the encoding.         *)
EXTENDS Messages, Json, IOUtils

VARIABLE x

Rep(b, n) == [i \in 1..n |-> b]
Up(n) == [i \in 1..n |-> i % 256]
Numbers == {Rep(0, 8), Rep(255, 8), <<1, 2, 3, 4, 5, 6, 7, 8>>}
Twos == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<255, 255>>, <<0, 1>>, <<7, 9>>, <<3, 0>>, <<254, 255>>, <<255, 0>>, <<0, 255>>, <<2, 128>>}
Texts == {<<>>, <<0>>, <<255, 0>>, Up(5), Up(33), Up(300)}
Radii == {Rep(0, 32), Rep(255, 32), Up(32)}
Rows(S, n) == UNION {[1..k -> S] : k \in 0..n}

\* Records of the model; the driver has its own.
Design == [recs |-> << <<200, 1, 2>>, <<249>>, Up(9) >>]

Pings == {[m |-> m, f |-> << <<s>>, <<t>>, <<p>> >>] : m \in {0, 1}, s \in Numbers, t \in Twos,
            p \in Texts \cup {Rep(3, 1099), Rep(3, 1100)}}
Others ==
  {[m |-> 2, f |-> <<d>>] : d \in Rows({<<0, 0>>, <<0, 1>>, <<255, 0>>, <<7, 9>>}, 3) \cup {[i \in 1..256 |-> <<i % 256, i \div 256>>]}}
  \cup {[m |-> 3, f |-> << <<t>>, l >>] : t \in {<<0>>, <<1>>, <<255>>}, l \in Rows({<<1>>, <<2>>, <<3>>}, 3)}
  \cup {[m |-> 4, f |-> << <<k>> >>] : k \in Texts}
  \cup {[m |-> 5, f |-> << <<<<0>>>>, <<t>> >>] : t \in Twos}
  \cup {[m |-> 5, f |-> << <<<<1>>>>, <<t>> >>] : t \in Texts \cup {Rep(2, 1165)}}
  \cup {[m |-> 5, f |-> << <<<<2>>>>, l >>] : l \in Rows({<<1>>, <<2>>, <<3>>}, 3)}
  \cup {[m |-> 6, f |-> <<l>>] : l \in Rows({<<>>, <<5>>, Up(33)}, 3) \cup {[i \in 1..64 |-> <<i>>]}}
  \cup {[m |-> 7, f |-> << <<t>>, <<k>> >>] : t \in Twos, k \in {<<>>, <<1>>, <<0, 255>>, Up(64)}}

\* Few of each, to be damaged.
Some == {q \in Pings : q.f[1][1] = Up(8) /\ q.f[2][1] \in {<<0, 0>>, <<7, 9>>} /\ q.f[3][1] \in {<<>>, Up(5), Rep(3, 1100)}}
        \cup {q \in Others : CASE q.m = 2 -> Len(q.f[1]) \in {0, 2}
                               [] q.m = 3 -> q.f[1] = <<<<1>>>> /\ q.f[2] \in {<<>>, <<<<1>>>>, <<<<2>>, <<1>>>>}
                               [] q.m = 4 -> q.f[1][1] \in {<<>>, Up(33)}
                               [] q.m = 5 -> q.f[2] \in {<<<<7, 9>>>>, <<<<>>>>, <<Up(5)>>, <<>>, <<<<1>>>>, <<<<2>>, <<3>>>>}
                               [] q.m = 6 -> Len(q.f[1]) < 3 /\ (\A i \in 1..Len(q.f[1]) : q.f[1][i] # <<5>>)
                               [] q.m = 7 -> q.f[1][1] = <<7, 9>> /\ Len(q.f[2][1]) < 3}
NoEdit == [cut |-> 0, add |-> <<>>, at |-> 0, v |-> 0]
Edits == {[NoEdit EXCEPT !.cut = n] : n \in 1..6} \cup {[NoEdit EXCEPT !.add = a] : a \in {<<0>>, <<255>>, Up(4), Rep(0, 120)}}
         \cup {[NoEdit EXCEPT !.at = i, !.v = v] : i \in 1..22, v \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 14, 15, 40, 255}}
         \cup {[NoEdit EXCEPT !.cut = n, !.at = 1, !.v = v] : n \in {0, 1}, v \in 8..10}

Infos == {"", "trin/v0.1.1-b61fdc5c/linux-x86_64/rustc1.81.0", "a/b-c/d-e/f", "a/-/-/", "a/b-c-d/e-f/g",
          "a/bc/d-e/f", "a/b-c/de/f", "a/b-c/d-e-g/f", "a/b-c/d-e", "a/b-c/d-e/f/g", "abc", "////", "///", "a-b/c/d-e/f"}
Pays ==
  {[op |-> "pay", t |-> <<1, 0>>, f |-> << <<r>> >>, info |-> ""] : r \in Radii}
  \cup {[op |-> "pay", t |-> <<2, 0>>, f |-> << <<r>>, <<n>> >>, info |-> ""] : r \in Radii, n \in Twos}
  \cup {[op |-> "pay", t |-> <<255, 255>>, f |-> << <<n>>, <<k>> >>, info |-> ""] : n \in Twos, k \in {<<>>, <<65>>, Rep(65, 299), Rep(65, 300), Rep(65, 301)}}
  \cup {[op |-> "pay", t |-> <<0, 0>>, f |-> << <<<<>>>>, <<r>>, d >>, info |-> i] : r \in Radii, i \in Infos,
          d \in {<<>>, <<<<0, 0>>>>, << <<0, 0>>, <<1, 0>>, <<255, 255>> >>, << <<7, 9>>, <<2, 0>> >>}}
  \* lengths of the description and of the list of extensions
  \cup {[op |-> "pay", t |-> <<0, 0>>, f |-> << <<Rep(66, n)>>, <<Up(32)>>, <<>> >>, info |-> "a/b-c/d-e/"] : n \in {189, 190, 191, 192}}
  \cup {[op |-> "pay", t |-> <<0, 0>>, f |-> << <<>>, <<Up(32)>>, [i \in 1..n |-> <<i % 256, 3>>] >>, info |-> ""] : n \in {399, 400, 401, 402}}
  \cup {[op |-> "pay", t |-> <<0, 0>>, f |-> << <<<<255>>>>, <<Up(32)>>, <<>> >>, info |-> i] : i \in {"", "a/b-c/d-e/f"}}
  \cup {[op |-> "pay", t |-> t, f |-> << <<Up(32)>> >>, info |-> ""] : t \in Twos \ KnownPay}
SomePays == {q \in Pays : q.info \in {"", "a/b-c/d-e/f"} /\ \A i \in 1..Len(q.f) : Len(q.f[i]) < 4 /\ \A j \in 1..Len(q.f[i]) : Len(q.f[i][j]) < 60}
PayEdits == Edits \cup {[NoEdit EXCEPT !.at = i, !.v = v] : i \in 37..44, v \in {0, 1, 39, 40, 41, 43, 44, 51, 52, 255}}

Sends == UNION {[1..k -> {<<k0, v>> : k0 \in {<<>>, <<5>>, Up(33)}, v \in {<<>>, <<9>>, Up(300)}}] : k \in 0..2}
         \cup {[i \in 1..64 |-> << <<i>>, <<>> >>]}
Descs == {<<n, v, c, "linux", p, l>> : n \in {"trin", "", "a-b"}, v \in {"v0.1.1", "1-beta", "1-beta-2", ""}, c \in {"b61fdc5c", ""},
            p \in {"x86_64", ""}, l \in {"rustc1.81.0", "a-b", ""}}

Init ==
  \/ \E q \in Sends : x = [op |-> "send", items |-> q]
  \/ \E q \in Descs : x = [op |-> "info", f |-> q, radius |-> Up(32), caps |-> << <<0, 0>>, <<7, 9>> >>]
  \/ \E q \in 0..3 : \E n \in {0, 1, 299, 300, 301, 600} : x = [op |-> "error", code |-> q, n |-> n]
  \/ \E q \in Pings \cup Others : x = [op |-> "msg", m |-> q.m, f |-> q.f]
  \/ \E q \in Some : \E d \in Edits : x = [op |-> "rawmsg", m |-> q.m, f |-> q.f, edit |-> d]
  \/ \E q \in Pings : Len(q.f[3][1]) = 1100 /\ \E n \in {1, 2, 60} : x = [op |-> "rawmsg", m |-> q.m, f |-> q.f, edit |-> [NoEdit EXCEPT !.add = Rep(3, n)]]
  \/ \E q \in Pays : x = q @@ [edit |-> NoEdit]
  \/ \E q \in SomePays : \E d \in PayEdits : x = q @@ [edit |-> d]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Apply(b, d) == LET b1 == SubSeq(b, 1, Len(b) - d.cut) \o d.add IN
               IF d.at = 0 \/ d.at > Len(b1) THEN b1 ELSE [b1 EXCEPT ![d.at] = d.v]

Lemma ==
  CASE x.op = "msg" -> LET q == [m |-> x.m, f |-> x.f] IN DecodeMsg(Design, EncodeMsg(Design, q)) = {q}
    [] x.op = "rawmsg" -> LET b == Apply(EncodeMsg(Design, [m |-> x.m, f |-> x.f]), x.edit) IN
                          /\ Cardinality(DecodeMsg(Design, b)) <= 1
                          /\ \A q \in DecodeMsg(Design, b) : Strange(q) \/ EncodeMsg(Design, q) = b
    [] x.op = "pay" /\ x.t \in KnownPay ->
         LET b == Apply(EncodePay(x.t, IF x.f[1] = <<>> THEN [x.f EXCEPT ![1] = <<<<>>>>] ELSE x.f), x.edit) IN
         \A q \in DecodePay(x.t, b) : EncodePay(x.t, q) = b
    [] OTHER -> TRUE

Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
