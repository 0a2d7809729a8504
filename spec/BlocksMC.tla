------------------------------ MODULE BlocksMC -------------------------------
(* Blocks and what is sent for them: other items, other orders, other        *)
(* shapes, stray bytes after an item, and damage anywhere in the encoding.    *)
EXTENDS Blocks, Json, IOUtils

VARIABLE x

Rows(S, n) == UNION {[1..k -> S] : k \in 0..n}
Many(n) == [i \in 1..n |-> 1 + (i % 4)]
Plain(l) == [i \in 1..Len(l) |-> [k |-> l[i], junk |-> <<>>]]
Block(t, u, w, r) == [txs |-> t, unc |-> u, wd |-> w, rc |-> r]
Send(t, u, w) == [txs |-> Plain(t), unc |-> u, after |-> <<>>, wd |-> IF w = <<>> THEN <<>> ELSE <<Plain(w[1])>>]
NoEdit == [cut |-> 0, add |-> <<>>, at |-> 0, v |-> 0]

Wds == {<<>>, <<<<>>>>, << <<1>> >>, << <<1, 2>> >>}
Blocks0 == {Block(t, u, w, <<1, 2>>) : t \in {<<>>, <<1>>, <<2, 1>>}, u \in {<<>>, <<1>>, <<1, 2>>}, w \in Wds}
Some == {Block(<<1, 2>>, <<1>>, <<>>, <<1, 2>>), Block(<<3>>, <<>>, << <<1, 2>> >>, <<2, 3, 1>>),
         Block(<<>>, <<>>, <<>>, <<>>), Block(<<>>, <<>>, <<<<>>>>, <<>>), Block(<<4, 2, 1>>, <<2, 1>>, <<>>, <<4, 3>>)}

BodyOp(b, s, d, known) == [op |-> "body", b |-> b, s |-> s, edit |-> d, known |-> known]
Positions == (1..48) \cup {60, 75, 90, 150, 300, 500, 700}
Values == {0, 1, 4, 7, 8, 9, 12, 13, 16, 127, 128, 192, 193, 255}
Edits == {[NoEdit EXCEPT !.cut = n] : n \in {1, 2, 3, 4, 8, 12, 40}} \cup {[NoEdit EXCEPT !.add = a] : a \in {<<0>>, <<192>>, <<0, 0, 0, 0>>, <<255, 1>>}}
         \cup {[NoEdit EXCEPT !.at = i, !.v = v] : i \in Positions, v \in Values}
Junk == {<<0>>, <<192>>, <<1, 2, 3>>}
\* One item with stray bytes after it.
Strewn(l, i, j) == [Plain(l) EXCEPT ![i].junk = j]

Init ==
  \/ \E b \in Blocks0 \cup Some \cup {Block(Many(130), <<>>, <<>>, Many(129))} : x = [op |-> "own", b |-> b]
  \* everything sent for everything
  \/ \E b \in Blocks0, t \in {<<>>, <<1>>, <<2, 1>>, <<1, 2>>}, u \in {<<>>, <<1>>, <<1, 2>>}, w \in Wds : x = BodyOp(b, Send(t, u, w), NoEdit, TRUE)
  \/ \E b \in Some : \E t \in Rows({1, 2, 3, 4}, 3) : x = BodyOp(b, Send(t, b.unc, b.wd), NoEdit, TRUE)
  \/ \E b \in Some : \E u \in Rows({1, 2}, 3) : x = BodyOp(b, Send(b.txs, u, b.wd), NoEdit, TRUE)
  \/ \E b \in Some : \E w \in {<<>>} \cup {<<l>> : l \in Rows({1, 2, 3}, 3)} : x = BodyOp(b, Send(b.txs, b.unc, w), NoEdit, TRUE)
  \/ \E b \in {Block(Many(130), <<>>, <<>>, <<>>)} : \E t \in {Many(130), Many(129), Many(131), [Many(130) EXCEPT ![128] = 1], [Many(130) EXCEPT ![130] = 2], [Many(130) EXCEPT ![2] = 1]} :
       x = BodyOp(b, Send(t, <<>>, <<>>), NoEdit, TRUE)
  \/ \E b \in Some : \E d \in Edits : x = BodyOp(b, Send(b.txs, b.unc, b.wd), d, TRUE)
  \/ \E b \in Some : x = BodyOp(b, Send(b.txs, b.unc, b.wd), NoEdit, FALSE)
  \/ \E b \in Some : \E j \in Junk : \E i \in 1..Len(b.txs) : x = BodyOp(b, [Send(b.txs, b.unc, b.wd) EXCEPT !.txs = Strewn(b.txs, i, j)], NoEdit, TRUE)
  \/ \E b \in Some : \E j \in Junk : x = BodyOp(b, [Send(b.txs, b.unc, b.wd) EXCEPT !.after = j], NoEdit, TRUE)
  \/ \E b \in Some : \E j \in Junk : \E i \in 1..(IF b.wd = <<>> THEN 0 ELSE Len(b.wd[1])) :
       x = BodyOp(b, [Send(b.txs, b.unc, b.wd) EXCEPT !.wd = <<Strewn(b.wd[1], i, j)>>], NoEdit, TRUE)
  \/ \E b \in Some : \E r \in Rows({1, 2, 3, 4}, 3) : x = [op |-> "receipts", b |-> b, rc |-> Plain(r), edit |-> NoEdit, known |-> TRUE]
  \/ \E r \in {Many(129), Many(128), [Many(129) EXCEPT ![129] = 1], [Many(129) EXCEPT ![1] = 4]} :
       x = [op |-> "receipts", b |-> Block(<<>>, <<>>, <<>>, Many(129)), rc |-> Plain(r), edit |-> NoEdit, known |-> TRUE]
  \/ \E b \in Some : \E d \in Edits : x = [op |-> "receipts", b |-> b, rc |-> Plain(b.rc), edit |-> d, known |-> TRUE]
  \/ \E b \in Some : x = [op |-> "receipts", b |-> b, rc |-> Plain(b.rc), edit |-> NoEdit, known |-> FALSE]
  \/ \E b \in Some : \E j \in Junk : \E i \in 1..Len(b.rc) : x = [op |-> "receipts", b |-> b, rc |-> Strewn(b.rc, i, j), edit |-> NoEdit, known |-> TRUE]
  \/ \E by \in {"hash", "number"}, i \in 1..5, k \in 1..5 : x = [op |-> "head", by |-> by, i |-> i, k |-> k, pad |-> <<>>, edit |-> NoEdit, hi |-> 0]
  \/ \E i \in 1..5, hi \in 1..3 : x = [op |-> "head", by |-> "number", i |-> i, k |-> i, pad |-> <<>>, edit |-> NoEdit, hi |-> hi]
  \/ \E by \in {"hash", "number"}, i \in {1, 3}, j \in Junk : x = [op |-> "head", by |-> by, i |-> i, k |-> i, pad |-> j, edit |-> NoEdit, hi |-> 0]
  \/ \E by \in {"hash", "number"}, i \in {1, 3}, d \in Edits : x = [op |-> "head", by |-> by, i |-> i, k |-> i, pad |-> <<>>, edit |-> d, hi |-> 0]
  \/ \E kind \in {"recent", "offered"}, i \in 1..5 : x = [op |-> "other", kind |-> kind, i |-> i]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

\* Items of the model; the driver has its own.
Design == [txs |-> << <<193, 1>>, <<2, 192>>, <<1, 193, 7>>, <<195, 1, 2, 3>> >>, unc |-> << <<194, 1, 2>>, <<193, 9>> >>,
           wds |-> << <<193, 1>>, <<193, 2>>, <<194, 3, 3>> >>, rcs |-> << <<192>>, <<1, 192>>, <<193, 5>>, <<2, 193, 5>> >>]
\* What is sent, laid out like a body.
Sent(c, s) == LET with(l, bytes) == [i \in 1..Len(l) |-> bytes[l[i].k] \o l[i].junk]
                  u == Listed(Of(c.unc, s.unc)) \o s.after
              IN IF s.wd = <<>> THEN Pack(<<0, 0>>, <<PackList(with(s.txs, c.txs)), u>>)
                 ELSE Pack(<<0, 0, 0>>, <<PackList(with(s.txs, c.txs)), u, PackList(with(s.wd[1], c.wds))>>)
Keys(l) == [i \in 1..Len(l) |-> l[i].k]
Clean(l) == \A i \in 1..Len(l) : l[i].junk = <<>>
\* Two bodies have the same bytes only when they hold the same.
Lemma ==
  (x.op = "body" /\ x.edit = NoEdit /\ Sound(x.b)) =>
    ((Sent(Design, x.s) = Body(Design, x.b)) <=>
       /\ Keys(x.s.txs) = x.b.txs /\ Clean(x.s.txs) /\ x.s.after = <<>> /\ x.s.unc = x.b.unc
       /\ x.b.wd = IF x.s.wd = <<>> THEN <<>> ELSE <<Keys(x.s.wd[1])>>
       /\ x.s.wd # <<>> => Clean(x.s.wd[1]))

Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
