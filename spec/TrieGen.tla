------------------------------ MODULE TrieGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxCases, Full
VARIABLES hist, c, todo
T == INSTANCE Trie
vars == <<hist, c, todo>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}

Node(k, key, ch, val) == [k |-> k, key |-> key, ch |-> ch, val |-> val]
Val(t) == [t |-> t, root |-> 0, code |-> 0, m |-> 0]
Ref(r, i) == [r |-> r, i |-> i]
Run(n, r) == [j \in 1..n |-> (j * 7 + r) % 16]
Add(n) == [c EXCEPT !.nodes = Append(@, n)]
New == Len(c.nodes) + 1
Put(q, i, x) == [q EXCEPT ![i] = x]
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Dup(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i, Len(q))
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]

Fresh(kind) == [kind |-> kind, form |-> "proof", nodes |-> <<>>, proof |-> <<>>, aproof |-> <<>>, path |-> <<>>, addr |-> <<>>,
                want |-> 0, code |-> 0, wantcode |-> 0]

\* One case is built from the bottom up: the proved node, what is above it, the account, what is above that; then it is spoilt.
Kind == \E k \in One({"account", "storage", "code"}), w \in One(0..5), code \in One(0..4) :
  /\ c' = [Fresh(k) EXCEPT !.code = code, !.wantcode = code]
  /\ todo' = IF k = "code" THEN <<"account", w>> ELSE <<"bottom", w>>
Spare(n, other) == \* further children of a branch besides the one at n
  LET x == (n + 1 + (other % 15)) % 16  y == (x + 1) % 16 IN
  CASE other % 6 = 0 \/ x = n -> <<>>
    [] other % 6 = 1 -> <<[n |-> x, r |-> Ref("stray", other)]>>
    [] other % 6 = 2 /\ New > 1 -> <<[n |-> x, r |-> Ref("hash", New - 1)]>>
    [] other % 6 = 3 /\ y # n -> <<[n |-> x, r |-> Ref("stray", other)], [n |-> y, r |-> Ref("stray", other + 1)]>>
    [] other % 6 = 4 /\ {i \in 1..(New - 1) : c.nodes[i].val.t = "tiny"} # {} -> <<[n |-> x, r |-> Ref("in", CHOOSE i \in 1..(New - 1) : c.nodes[i].val.t = "tiny")]>>
    [] OTHER -> <<[n |-> x, r |-> Ref("stray", other)]>>
Tiny == <<Node("leaf", <<3, 5>>, <<>>, Val("tiny"))>>
Bottom == \E b \in One(1..8), r \in One(0..15), o \in One(0..999) :
  LET n == CASE b <= 3 -> Node("leaf", Run(1 + (o % 9), r), <<>>, Val("long"))
             [] b = 4 -> Node("leaf", <<>>, <<>>, Val("long"))
             [] b = 5 -> Node("ext", Run(1 + (o % 5), r), <<[n |-> 0, r |-> Ref("stray", o)]>>, T!NoVal)
             [] b = 6 -> Node("junk", <<o % 7>>, <<>>, T!NoVal)
             [] OTHER -> Node("branch", <<>>, <<[n |-> r, r |-> Ref("stray", o)]>> \o Spare(r, o), IF o % 5 = 0 THEN Val("long") ELSE T!NoVal)
  IN /\ c' = [c EXCEPT !.nodes = Tiny \o <<n>>, !.proof = <<2>>, !.want = 2]
     /\ todo' = IF todo[2] = 0 THEN <<"top", 0>> ELSE <<"over", todo[2]>>
Wrap(field, way) == \E b \in One(1..5), r \in One(0..15), o \in One(0..999), len \in One(1..3) :
  LET top == c[field][1]
      key == IF b <= 2 THEN Run(len, r) ELSE <<r>>
      n == IF b <= 2 THEN Node("ext", key, <<[n |-> 0, r |-> Ref("hash", top)]>>, T!NoVal)
           ELSE Node("branch", <<>>, <<[n |-> r, r |-> Ref("hash", top)]>> \o Spare(r, o), IF o % 7 = 0 THEN Val("long") ELSE T!NoVal)
  IN c' = [Add(n) EXCEPT ![field] = <<New>> \o @, ![way] = key \o @]
Over == Wrap("proof", "path") /\ todo' = IF todo[2] = 1 THEN <<"top", 0>> ELSE <<"over", todo[2] - 1>>
Top == \E w \in One(0..5) : UNCHANGED c /\ todo' = IF c.kind = "account" THEN <<"spoil", 0>> ELSE <<"account", w>>
\* The account's own leaf; the nibbles above it are filled in while wrapping, the leaf takes what is left.
Account == \E o \in One(0..39) :
  LET v == [t |-> IF o = 0 THEN "junk" ELSE "acct", root |-> IF c.proof = <<>> THEN 0 ELSE c.proof[1], code |-> c.code, m |-> o % 4]
  IN /\ c' = [Add(Node("leaf", <<>>, <<>>, v)) EXCEPT !.aproof = <<New>>, !.addr = <<>>]
     /\ todo' = <<"up", todo[2], New>>
Up == IF todo[2] > 0 THEN Wrap("aproof", "addr") /\ todo' = <<"up", todo[2] - 1, todo[3]>>
      ELSE \E r \in One(0..15) :
           LET rest == Run(Full - Len(c.addr), r) IN
           /\ c' = [c EXCEPT !.addr = @ \o rest, !.nodes[todo[3]].key = rest]
           /\ todo' = <<"spoil", 0>>

Places(q) == 1..(IF Len(q) = 0 THEN 1 ELSE Len(q))
Bump(q, i, d) == [q EXCEPT ![i] = (@ + d) % 16]
SpoilList(f) == \E m \in One(1..10), i \in One(Places(c[f])), j \in One(Places(c[f])), k \in One(Places(c.nodes)), o \in One(0..999) :
  IF c[f] = <<>> THEN UNCHANGED c ELSE
  c' = CASE m = 1 -> [c EXCEPT ![f] = Cut(@, i)]
         [] m = 2 -> [c EXCEPT ![f] = Dup(@, i)]
         [] m = 3 -> [c EXCEPT ![f] = Swap(@, i, j)]
         [] m = 4 -> [c EXCEPT ![f] = Put(@, i, k)]
         [] m = 5 -> [c EXCEPT ![f] = Append(@, k)]
         [] m = 6 -> [c EXCEPT ![f] = <<>>]
         [] m = 7 -> [c EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1)]
         [] m = 8 -> [Add(Node("junk", <<o % 7>>, <<>>, T!NoVal)) EXCEPT ![f] = Put(@, i, New)]
         [] m = 9 -> [Add(Node("empty", <<>>, <<>>, T!NoVal)) EXCEPT ![f] = Put(@, i, New)]
         \* the same node with something else in it
         [] OTHER -> LET n == c.nodes[c[f][i]] IN
                     [Add(CASE n.k = "leaf" /\ n.key # <<>> -> [n EXCEPT !.key = Bump(@, 1 + (o % Len(n.key)), 1)]
                            [] n.k = "leaf" -> [n EXCEPT !.val = Val("junk")]
                            [] n.k = "ext" /\ o % 4 = 0 -> [n EXCEPT !.key = <<>>]
                            [] n.k = "ext" -> [n EXCEPT !.key = Bump(@, 1 + (o % Len(n.key)), 1)]
                            [] n.k = "branch" -> [n EXCEPT !.val = IF n.val.t = "none" THEN Val("long") ELSE T!NoVal]
                            [] OTHER -> Node("empty", <<>>, <<>>, T!NoVal)) EXCEPT ![f] = Put(@, i, New)]
SpoilWay(f) == \E m \in One(1..6), i \in One(Places(c[f])), d \in One(1..15) :
  c' = IF f = "addr" THEN [c EXCEPT ![f] = Bump(@, IF m < 4 THEN 1 + ((i - 1) % 6) ELSE i, d)]
       ELSE CASE m = 1 /\ c[f] # <<>> -> [c EXCEPT ![f] = Bump(@, i, d)]
              [] m = 2 /\ c[f] # <<>> -> [c EXCEPT ![f] = Cut(@, i)]
              [] m = 3 -> [c EXCEPT ![f] = Append(@, d)]
              [] m = 4 -> [c EXCEPT ![f] = @ \o <<3, 5>>]
              [] m = 5 /\ c[f] # <<>> -> [c EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1)]
              [] OTHER -> [c EXCEPT ![f] = <<>>]
\* A child of a branch or extension held by hash points elsewhere, or the value of the account does.
SpoilNode == \E i \in One(Places(c.nodes)), o \in One(0..999), m \in One(1..3) :
  LET n == c.nodes[i]  a == CHOOSE x \in 0..Len(c.nodes) : x = 0 \/ TRUE IN
  IF n.val.t = "acct" THEN c' = [c EXCEPT !.nodes[i].val = IF m = 1 THEN [@ EXCEPT !.root = IF i > 1 THEN o % i ELSE 0] ELSE [@ EXCEPT !.code = o % 5]]
  ELSE IF n.ch = <<>> THEN UNCHANGED c
  ELSE c' = [c EXCEPT !.nodes[i].ch[1].r = IF i > 1 /\ m < 3 THEN Ref("hash", 1 + (o % (i - 1))) ELSE Ref("stray", o)]
SpoilVal == \E m \in One(1..3), o \in One(0..999) :
  LET as == {i \in 1..Len(c.nodes) : c.nodes[i].val.t = "acct"} IN
  IF as = {} THEN UNCHANGED c
  ELSE \E i \in {CHOOSE x \in as : TRUE} :
       c' = [c EXCEPT !.nodes[i].val = CASE m = 1 -> [@ EXCEPT !.root = o % i] [] m = 2 -> [@ EXCEPT !.code = (@ + 1 + (o % 4)) % 5] [] OTHER -> [@ EXCEPT !.root = 0]]
SpoilKey == \E m \in One(1..6), k \in One(0..Len(c.nodes)), o \in One(0..4) :
  c' = CASE m = 1 -> [c EXCEPT !.want = k] [] m = 2 -> [c EXCEPT !.want = 0]
         [] m = 3 -> [c EXCEPT !.code = o] [] m = 4 -> [c EXCEPT !.wantcode = o]
         [] m = 5 -> [c EXCEPT !.code = o, !.wantcode = o]
         [] OTHER -> [c EXCEPT !.want = IF c.proof = <<>> THEN 0 ELSE c.proof[1]]
SpoilForm == \E f \in One({"bare", "bare1", "bare2", "cut", "kind", "none"}), k \in One(0..Len(c.nodes)), o \in One(0..4) :
  c' = CASE f = "bare1" -> [c EXCEPT !.form = "bare", !.want = k, !.wantcode = o]
         [] f = "bare2" -> [c EXCEPT !.form = "bare", !.proof = IF k = 0 THEN @ ELSE <<k>>, !.code = o]
         [] OTHER -> [c EXCEPT !.form = f]
Spoil == \E m \in One(1..16), again \in One(1..9) :
  /\ CASE m \in 1..3 -> UNCHANGED c
       [] m \in 4..6 -> SpoilList("proof")
       [] m \in 7..8 -> SpoilList("aproof")
       [] m = 9 -> SpoilWay("path")
       [] m = 10 -> IF c.addr # <<>> THEN SpoilWay("addr") ELSE SpoilWay("path")
       [] m = 11 -> SpoilNode
       [] m = 12 -> SpoilVal
       [] m \in 13..14 -> SpoilKey
       [] OTHER -> SpoilForm
  /\ todo' = IF again = 1 THEN <<"spoil", 0>> ELSE <<"done", 0>>

GInit == hist = <<>> /\ c = Fresh("none") /\ todo = <<"kind", 0>>
GNext == IF todo[1] = "done" THEN /\ Len(hist) < MaxCases /\ hist' = Append(hist, c) /\ c' = Fresh("none") /\ todo' = <<"kind", 0>>
         ELSE /\ UNCHANGED hist
              /\ CASE todo[1] = "kind" -> Kind [] todo[1] = "bottom" -> Bottom [] todo[1] = "over" -> Over [] todo[1] = "top" -> Top
                   [] todo[1] = "account" -> Account [] todo[1] = "up" -> Up [] OTHER -> Spoil
GSpec == GInit /\ [][GNext]_vars
Emit == (Len(hist) = MaxCases /\ todo[1] = "kind") =>
  Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
