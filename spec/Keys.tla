-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Content keys.  A key is [net, sel, f]: the network, the number of its    *)
(* type, and its fields: hashes (32 bytes), numbers (8 bytes), a count (one *)
(* byte) and paths, which are given as nibbles.                             *)
(***************************************************************************)
EXTENDS Codec

Types(net) ==
  CASE net = "headers" -> (0 :> <<32>>) @@ (1 :> <<32>>) @@ (2 :> <<32>>) @@ (3 :> <<8>>) @@ (4 :> <<32, 1>>) @@ (5 :> <<32>>)
    [] net = "blocks" -> (0 :> <<8>>) @@ (1 :> <<8>>)
    [] net = "beacon" -> (16 :> <<32>>) @@ (17 :> <<8, 8>>) @@ (18 :> <<8>>) @@ (19 :> <<8>>) @@ (20 :> <<8>>)
    [] net = "state" -> (32 :> <<0, 32>>) @@ (33 :> <<32, 0, 32>>) @@ (34 :> <<32, 32>>)
Nets == {"headers", "blocks", "beacon", "state"}

MaxPath == 64
PackPath(p) == LET odd == Len(p) % 2
                   q == IF odd = 1 THEN Tail(p) ELSE p
               IN <<IF odd = 1 THEN 16 + p[1] ELSE 0>> \o [i \in 1..(Len(q) \div 2) |-> 16 * q[2 * i - 1] + q[2 * i]]
UnpackPath(b) ==
  IF b = <<>> THEN {}
  ELSE LET t == Tail(b)
           rest == [i \in 1..(2 * Len(t)) |-> IF i % 2 = 1 THEN t[(i + 1) \div 2] \div 16 ELSE t[i \div 2] % 16]
           p == IF b[1] \div 16 = 1 THEN <<b[1] % 16>> \o rest ELSE rest
       IN IF (b[1] # 0 /\ b[1] \div 16 # 1) \/ Len(p) > MaxPath THEN {} ELSE {p}

Encode(k) == LET l == Types(k.net)[k.sel] IN
             <<k.sel>> \o Pack(l, [i \in 1..Len(l) |-> IF l[i] = 0 THEN PackPath(k.f[i]) ELSE k.f[i]])
Decode(net, b) ==
  IF b = <<>> \/ b[1] \notin DOMAIN Types(net) THEN {}
  ELSE LET l == Types(net)[b[1]] IN
       UNION {LET path(i) == UnpackPath(v[i]) IN
              IF \E i \in 1..Len(l) : l[i] = 0 /\ path(i) = {} THEN {}
              ELSE {[net |-> net, sel |-> b[1], f |-> [i \in 1..Len(l) |-> IF l[i] = 0 THEN Only(path(i)) ELSE v[i]]]}
              : v \in Unpack(l, Tail(b))}

Flip(x) == ((x \div 128) % 2) + 2 * ((x \div 64) % 2) + 4 * ((x \div 32) % 2) + 8 * ((x \div 16) % 2)
           + 16 * ((x \div 8) % 2) + 32 * ((x \div 4) % 2) + 64 * ((x \div 2) % 2) + 128 * (x % 2)
\* The id of a block's content: neighbouring blocks lie apart, those 65536 apart lie together.
BlockId(k) == LET n == k.f[1] IN
              <<n[2], n[1]>> \o [i \in 1..6 |-> Flip(n[2 + i])] \o [i \in 1..23 |-> 0] \o <<k.sel>>
ByRadius(k) == k.net # "beacon" /\ ~(k.net = "headers" /\ k.sel \in {4, 5})

KeyBad(e) ==
  LET k == [net |-> e.net, sel |-> e.sel, f |-> e.f] IN
  Clause("W03", e.raw = Encode(k), "the encoding of a key is not its number and its fields")
  \cup Clause("W03", e.back, "a key's encoding decodes to another key or is refused")
  \cup Clause("W03", e.hex, "a key does not survive its hexadecimal form")
  \cup Clause("W03", IF k.net = "blocks" THEN e.id = BlockId(k) ELSE e.sha, "the id of a key is not the one that belongs to its encoding")
  \cup Clause("W03", e.radius = ByRadius(k), "the radius is applied to content that has none, or not to content that has one")
RawBad(e) ==
  LET want == Decode(e.net, e.raw)
      got == {[net |-> e.net, sel |-> e.res[i].sel, f |-> e.res[i].f] : i \in 1..Len(e.res)}
  IN Clause("W03", want = {} => got = {}, "bytes that encode no key are taken for one")
     \cup Clause("W03", want # {} => got # {}, "the encoding of a key is refused")
     \cup Clause("W03", (want # {} /\ got # {}) => got = want, "bytes are taken for another key")
     \cup Clause("W03", got # {} => e.again = e.raw, "a decoded key has another encoding")
=============================================================================
