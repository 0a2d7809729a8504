------------------------------ MODULE Archive -------------------------------
(***************************************************************************)
(* Archive files: a sequence of entries, each two bytes of type, four of   *)
(* length (least significant first), two that are zero, and the value.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
\* an entry is <<first type byte, second type byte, value>>
Coded(x) == <<x[1], x[2], Len(x[3]) % 256, (Len(x[3]) \div 256) % 256, 0, 0, 0, 0>> \o x[3]
RECURSIVE Written(_)
Written(es) == IF es = <<>> THEN <<>> ELSE Coded(Head(es)) \o Written(Tail(es))

\* no file here has as many as 65536 bytes, so a length with a high byte always reaches past the end
Fits(b) == /\ Len(b) >= 8 /\ b[7] = 0 /\ b[8] = 0
           /\ b[5] = 0 /\ b[6] = 0 /\ Len(b) >= 8 + b[3] + 256 * b[4]
Size(b) == 8 + b[3] + 256 * b[4]
RECURSIVE Read(_)
\* the entries up to the first thing that is none, and whether the file ended there
Read(b) ==
  IF b = <<>> THEN [es |-> <<>>, whole |-> TRUE]
  ELSE IF ~Fits(b) THEN [es |-> <<>>, whole |-> FALSE]
  ELSE LET r == Read(SubSeq(b, Size(b) + 1, Len(b)))
       IN [es |-> <<<<b[1], b[2], SubSeq(b, 9, Size(b))>>>> \o r.es, whole |-> r.whole]

\* entries of sizes too large to be spelt out; the i-th is of type 257 * (i - 1) + 1
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE 8 + Head(q) + Total(Tail(q))
OnBig(e) ==
  LET want == [i \in DOMAIN e.sizes |-> <<257 * (i - 1) + 1, e.sizes[i], TRUE>>] IN
  Clause("E01", e.same /\ e.size = Total(e.sizes), "the file written does not hold the entries")
  \cup Clause("E01", e.mem = want, "reading a file returned other entries than it holds")
  \cup Clause("E01", e.stm = want, "reading a file as a stream returned other entries than it holds")
OnFile(e) ==
  LET r == Read(e.raw)
      w == Written(e.es) IN
  Clause("E01", e.mem = w /\ e.size = Len(w), "the file written in memory does not hold the entries")
  \cup Clause("E01", e.stm = w, "the file written as a stream does not hold the entries")
  \cup Clause("E01", r.whole => e.ok, "an intact file is refused")
  \cup Clause("E01", ~r.whole => ~e.ok, "a damaged file is read as if it were intact")
  \cup Clause("E01", e.ok => e.got = r.es, "reading a file returned other entries than it holds")
  \cup Clause("E01", e.streamed = r.es, "reading a file as a stream returned other entries than it holds")
  \cup Clause("E01", e.one # <<>> <=> (r.whole /\ Len(r.es) = 1), "a single entry is taken for something else")
  \cup Clause("E01", e.one # <<>> => e.one = r.es, "a single entry was read wrongly")
Clauses(e) == IF e.e = "big" THEN OnBig(e) ELSE OnFile(e)
=============================================================================
