------------------------------ MODULE TableGen -------------------------------
(* Random histories for the peer table.                                      *)
EXTENDS Table, Json, IOUtils

CONSTANTS Depth, Seqs

VARIABLES c, hist
vars == <<c, hist>>

\* Drawn anew in every step.
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}

At(l, x) == l[(x % Len(l)) + 1]
Asc16(base, n) == [i \in 1..n |-> base + i - 1]

\* Sixteen peers may share their distance from the node; the last crowds are larger.
Crowds == <<
  <<1, 2, 3, 4, 6, 9, 12>>,
  <<128, 129, 130, 131, 132, 133, 134, 160, 200, 255>>,
  <<1, 2, 3, 5, 8, 13, 21, 22, 34, 35, 36, 55, 89, 90, 91, 92, 144, 145, 146, 233, 254>>,
  <<16, 17, 18, 19, 20, 64, 65, 66, 80, 81, 127, 128, 191, 192, 193, 223, 224, 239, 240, 255>>,
  <<5>>,
  <<7, 130>>,
  \* more than fit
  <<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 5, 6, 70>>,
  <<255, 254, 253, 252, 251, 250, 249, 248, 247, 246, 245, 244, 243, 242, 241, 240, 239, 238>>,
  \* more than are looked at
  Asc16(128, 8) \o Asc16(192, 8) \o Asc16(64, 8) \o Asc16(96, 5) \o Asc16(32, 6) \o Asc16(48, 4) \o Asc16(16, 3) \o <<8, 9, 4, 1>> >>
\* whose members all are in the table from the start
Whole(peers) == IF Len(peers) > 40 THEN [i \in 1..Len(peers) |-> [op |-> "add", p |-> peers[Len(peers) + 1 - i], seq |-> 1 + (i % Seqs)]] ELSE <<>>
\* Sets of sizes of the records' padding.
Pads == << <<0>>, <<0>>, <<0, 40, 90>>, <<110, 3, 77, 60, 11>>, <<100, 101>>, <<120>>, <<20, 21, 22, 23, 24>>, <<97, 5, 0, 64>> >>
Lens == <<20, 1165, 1166, 1164, 3000, 0, 1167, 1171, 1172, 1159, 1170>>
Rads == <<1023, 0, 1, 3, 4 * 16 + 1, 4 * 16, 4 * 32 + 3, 4 * 127 + 3, 4 * 128, 4 * 128 + 1, 4 * 64 + 1, 4 * 3 + 3, 4 * 200, 4 * 255, 4 * 255 + 1>>
Exts == <<0, 1, 2, 65535, 3, 0, 1, 2, 4, 1000>>
Capsets == << <<0, 1, 65535>>, <<0, 2, 65535>>, <<0, 1, 2, 65535>>, <<>>, <<0>>, <<2, 1>>, <<1>>, <<7, 1>>, <<65535, 9>> >>
Dss == << <<256>>, <<0>>, <<256, 255>>, <<0, 256>>, <<249, 250, 251, 252>>, <<255, 254, 253>>, <<256, 256, 0, 0>>,
          <<0, 249, 250, 251, 252, 253, 254, 255, 256>>, <<>>, <<1>>, <<248, 247>>, <<256, 255, 254, 253, 252, 251, 250, 249>>, <<257, 65535>>, <<253>>, <<256, 0, 256>>, <<255, 256, 255, 256>> >>

MakeCfg(x, y, z, u) ==
  LET peers == At(Crowds, x) IN
  [net |-> At(<<"history", "beacon", "state", "both">>, y), lim |-> 1 + (z % 2) + (IF z % 7 = 0 THEN 2 ELSE 0) - (IF z % 11 = 0 THEN 1 ELSE 0),
   aff |-> <<1, 2, 16, 128, 130, 200, 3, 64>>,
   have |-> <<[k |-> 1, len |-> At(Lens, z)], [k |-> 128, len |-> At(Lens, z \div 11)], [k |-> 7, len |-> At(Lens, y \div 4)],
              [k |-> 200, len |-> 3000]>>,
   r |-> At(Rads, y \div 16), peers |-> peers, seqs |-> Seqs, pads |-> At(Pads, u)]
Keys == <<1, 2, 16, 128, 130, 200, 3, 64, 7, 9, 250, 0>>

Body1(ext, x, y) ==
  [kind |-> IF x % 9 = 0 THEN "junk" ELSE IF x % 13 = 1 THEN At(<<"caps", "radius", "history">>, y)
            ELSE CASE ext = 0 -> "caps" [] ext = 1 -> "radius" [] ext = 2 -> "history" [] OTHER -> At(<<"caps", "junk">>, y),
   \* often what was said before
   r |-> IF y % 2 = 0 THEN At(<<1023, 4 * 128 + 1>>, y \div 6) ELSE At(Rads, y \div 3),
   caps |-> IF x % 3 = 0 THEN At(<< <<0, 1, 65535>>, <<0, 2, 65535>>, <<0, 1, 2>> >>, x \div 27) ELSE At(Capsets, x \div 9),
   n |-> IF x % 2 = 0 THEN (y \div 5) % 3 ELSE (y \div 5) % 30]

\* First the table fills.
Op(n, x, y, z, u, v) ==
  LET p == At(c.peers, y)
      s == 1 + (z % Seqs)
      ext == IF u % 3 = 0 THEN At(Exts, v) ELSE IF c.net \in {"beacon", "state"} THEN At(<<0, 1>>, v) ELSE At(<<0, 2>>, v)
      body == Body1(ext, u \div 3, v \div 10)
      rs == [i \in 1..(v % 4) |-> [p |-> IF (u + i) % 17 = 0 THEN 0 ELSE At(c.peers, u \div (i * i)), seq |-> 1 + ((v \div (3 * i)) % Seqs)]]
      \* some fail where there are more than fit, and others come to wait for their places
      crowded == Len(c.peers) \in {18, 23} /\ Len(c.pads) % 2 = 1
      off == IF crowded /\ n > 21 THEN 5 ELSE 0
      early == Len(c.peers) <= 40 /\ n < Len(c.peers) + 3 + off
      w == x % 100
  IN CASE crowded /\ n = 17 -> [op |-> "lookup", t |-> At(c.peers, u)]
       [] crowded /\ n \in 18..21 -> [op |-> "reply", o |-> y, how |-> IF n = 18 \/ u % 2 = 0 THEN "error" ELSE "ok", seq |-> 1, ext |-> ext, body |-> body, rs |-> <<>>]
       [] (early /\ (w < 45 \/ (crowded /\ n < 17))) -> [op |-> "add", p |-> At(c.peers, n - off), seq |-> s]
       [] (early /\ w >= 45 /\ w < 65) -> [op |-> "session", p |-> At(c.peers, n - off), seq |-> s]
       [] (early /\ w >= 65) \/ (~early /\ w < 22) -> [op |-> "ping", p |-> p, seq |-> IF z % 3 = 0 THEN 1 + ((z \div 3) % Seqs) ELSE IF z % 7 = 1 THEN 0 ELSE 1, ext |-> ext, body |-> body]
       [] ~early /\ w >= 22 /\ w < 35 -> [op |-> "nodes", p |-> p, ds |-> At(Dss, u)]
       [] ~early /\ w >= 35 /\ w < 48 -> [op |-> "find", p |-> p, k |-> At(Keys, u)]
       [] ~early /\ w >= 48 /\ w < 52 -> [op |-> "done"]
       [] ~early /\ w >= 52 /\ w < 57 -> [op |-> "tick"]
       [] ~early /\ w >= 57 /\ w < 76 -> [op |-> "reply", o |-> y, how |-> At(<<"ok", "ok", "ok", "error", "ok", "cross", "ok", "garbled", "ok">>, z \div 5),
                                          seq |-> s, ext |-> ext, body |-> body, rs |-> rs]
       [] ~early /\ w >= 76 /\ w < 79 -> [op |-> "add", p |-> p, seq |-> s]
       [] ~early /\ w >= 79 /\ w < 82 -> [op |-> "del", p |-> p]
       [] ~early /\ w >= 82 /\ w < 84 -> [op |-> "radius", r |-> At(Rads, u)]
       [] ~early /\ w >= 84 /\ w < 93 -> [op |-> "gossip", k |-> At(<<1, 2, 16, 128, 130, 200, 3, 64, 9, 250>>, u)]
       [] ~early /\ w >= 93 /\ w < 96 -> [op |-> "lookup", t |-> IF z % 3 = 0 THEN At(c.peers, u) ELSE At(<<10, 77, 140, 250, 1>>, u)]
       [] OTHER -> [op |-> "session", p |-> p, seq |-> s]

Init == /\ hist = <<>>
        /\ c = 0

Next == IF hist = <<>>
        THEN \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999), u \in One(0..99999) :
               /\ c' = MakeCfg(x, y, z, u)
               /\ hist' = <<[op |-> "init", c |-> MakeCfg(x, y, z, u)]>> \o Whole(MakeCfg(x, y, z, u).peers)
        ELSE \E x \in One(0..99999), y \in One(0..99999), z \in One(0..99999), u \in One(0..99999), v \in One(0..99999) :
               /\ c' = c
               /\ hist' = Append(hist, Op(Len(hist) - Len(Whole(c.peers)), x, y, z, u, v))

Emit == \/ Len(hist) # Depth + (IF hist = <<>> THEN 0 ELSE Len(Whole(c.peers)))
        \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Spec == Init /\ [][Next]_vars
=============================================================================
