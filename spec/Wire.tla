-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Multi-item payloads (every item after its length as LEB128 varint) and   *)
(* accept codes.  Byte strings are run-length coded: a sequence of          *)
(* <<byte, count>>, neighbours different, so that long items stay small.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}

RECURSIVE Size(_)
Size(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Size(Tail(r))
\* a followed by n times b
Push(a, b, n) == IF n = 0 THEN a
                 ELSE IF a # <<>> /\ a[Len(a)][1] = b THEN [a EXCEPT ![Len(a)] = <<b, @[2] + n>>]
                 ELSE Append(a, <<b, n>>)
RECURSIVE Cat(_, _)
Cat(a, b) == IF b = <<>> THEN a ELSE Cat(Push(a, b[1][1], b[1][2]), Tail(b))
RECURSIVE Take(_, _)
Take(r, n) == IF n = 0 \/ r = <<>> THEN <<>>
              ELSE IF r[1][2] >= n THEN <<<<r[1][1], n>>>>
              ELSE <<r[1]>> \o Take(Tail(r), n - r[1][2])
RECURSIVE Drop(_, _)
Drop(r, n) == IF n = 0 \/ r = <<>> THEN r
              ELSE IF r[1][2] > n THEN <<<<r[1][1], r[1][2] - n>>>> \o Tail(r)
              ELSE Drop(Tail(r), n - r[1][2])
RECURSIVE Runs(_)
Runs(bytes) == IF bytes = <<>> THEN <<>> ELSE Cat(<<<<bytes[1], 1>>>>, Runs(Tail(bytes)))

-----------------------------------------------------------------------------
(* Payloads *)

Big == 268435456        \* stands for every length that no payload here can have

RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Varint(n \div 128)

RECURSIVE Enc(_)
Enc(items) == IF items = <<>> THEN <<>>
              ELSE Cat(Cat(Runs(Varint(Size(items[1]))), items[1]), Enc(Tail(items)))

\* Reads a varint: [ok, n, rest, plain]; plain is false for a longer form than needed.
RECURSIVE ReadVarint(_, _, _, _)
ReadVarint(r, i, n, scale) ==
  IF r = <<>> \/ i > 10 THEN [ok |-> FALSE, n |-> 0, rest |-> <<>>, plain |-> TRUE]
  ELSE LET b == r[1][1]
           low == b % 128
           big == low > 0 /\ i > 4
           v == IF big \/ n >= Big \/ (i = 4 /\ low >= 128) THEN Big
                ELSE IF i <= 4 THEN n + low * scale ELSE n
       IN IF b >= 128 THEN ReadVarint(Drop(r, 1), i + 1, v, IF i < 4 THEN scale * 128 ELSE scale)
          ELSE [ok |-> TRUE, n |-> v, rest |-> Drop(r, 1), plain |-> ~(b = 0 /\ i > 1)]

RECURSIVE Dec(_, _, _)
Dec(r, items, plain) ==
  IF r = <<>> THEN [ok |-> TRUE, items |-> items, plain |-> plain]
  ELSE LET v == ReadVarint(r, 1, 0, 1) IN
       IF ~v.ok \/ v.n > Size(v.rest) THEN [ok |-> FALSE, items |-> <<>>, plain |-> TRUE]
       ELSE Dec(Drop(v.rest, v.n), Append(items, Take(v.rest, v.n)), plain /\ v.plain)

\* d is what the code made of payload r: [ok, items].
DecodeOk(r, d, one) ==
  LET w == Dec(r, <<>>, TRUE)
      ok == w.ok /\ (one => Len(w.items) = 1)
  IN Clause("W01", d.ok => ok, "a damaged payload is decoded")
     \cup Clause("W01", (ok /\ w.plain) => d.ok, "a proper payload is refused")
     \cup Clause("W01", (d.ok /\ ok) => d.items = w.items, "decoding yields other items")

-----------------------------------------------------------------------------
(* Accept codes: numbers 0 (accepted) .. 5, anything else 255.              *)

Known(c) == IF c \in 0..5 THEN c ELSE 255
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(bytes, i) == (bytes[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2
RECURSIVE High(_)
High(b) == IF b < 2 THEN 0 ELSE 1 + High(b \div 2)

RECURSIVE SumOf(_, _, _)
SumOf(bits, from, k) == IF k > 8 \/ from + k - 1 > Len(bits) THEN 0
                        ELSE bits[from + k - 1] * Pow2[k] + SumOf(bits, from, k + 1)
BitList(codes) ==
  LET bits == [i \in 1..Len(codes) + 1 |-> IF i > Len(codes) THEN 1 ELSE IF codes[i] = 0 THEN 1 ELSE 0]
  IN [j \in 1..(Len(codes) \div 8) + 1 |-> SumOf(bits, 8 * (j - 1) + 1, 1)]

EncCodes(ver, codes) == IF ver = 0 THEN BitList(codes) ELSE codes
DecCodes(ver, bytes) ==
  IF ver > 0 THEN [ok |-> Len(bytes) <= 64, codes |-> [i \in 1..Len(bytes) |-> Known(bytes[i])]]
  ELSE IF bytes = <<>> \/ bytes[Len(bytes)] = 0 THEN [ok |-> FALSE, codes |-> <<>>]
  ELSE LET n == 8 * (Len(bytes) - 1) + High(bytes[Len(bytes)]) IN
       [ok |-> n <= 64, codes |-> [i \in 1..n |-> 1 - Bit(bytes, i - 1)]]
Plain(ver, codes) == IF ver > 0 THEN codes ELSE [i \in 1..Len(codes) |-> IF codes[i] = 0 THEN 0 ELSE 1]

CodesOk(ver, codes, e) ==
  Clause("W01", e.ok, "accept codes are not encoded")
  \cup Clause("W01", e.ok => e.bytes = EncCodes(ver, codes), "accept codes are encoded differently")
  \cup Clause("W01", e.ok => (e.back.ok /\ e.back.codes = Plain(ver, codes)), "accept codes change their meaning")
RawCodesOk(ver, bytes, d) ==
  LET w == DecCodes(ver, bytes) IN
  Clause("W01", d.ok = w.ok, "a malformed accept answer is read, or a proper one refused")
  \cup Clause("W01", (d.ok /\ w.ok) => d.codes = w.codes, "an accept answer is read differently")
=============================================================================
