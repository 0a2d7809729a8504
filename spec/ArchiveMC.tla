----------------------------- MODULE ArchiveMC ------------------------------
(* Writer and readers of archives as they are designed: every list of small   *)
(* entries, every place to cut the file, every byte changed.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxEntries, MaxValue, Bytes
VARIABLES es, raw, at, got, st
Z == INSTANCE Archive
vars == <<es, raw, at, got, st>>
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Seqs(S, n - 1) IN r \cup {Append(q, x) : q \in {y \in r : Len(y) = n - 1}, x \in S}
Entries == {<<1, 2, v>> : v \in Seqs({7, 0}, MaxValue)}
Init == /\ es \in Seqs(Entries, MaxEntries) /\ raw = Z!Written(es) /\ at = 0 /\ got = <<>> /\ st = "written"
Cut == \E k \in 0..Len(raw) : raw' = SubSeq(raw, 1, k) /\ st' = "cut" /\ UNCHANGED <<es, at, got>>
Set == \E k \in 1..Len(raw), b \in Bytes : raw' = [raw EXCEPT ![k] = b] /\ st' = "set" /\ UNCHANGED <<es, at, got>>
\* the streaming reader: a header, then the value
Rest == SubSeq(raw, at + 1, Len(raw))
Step == /\ st \in {"written", "cut", "set"} /\ at >= 0
        /\ IF Len(Rest) >= 8 /\ Rest[7] = 0 /\ Rest[8] = 0 /\ Rest[5] = 0 /\ Rest[6] = 0 /\ Len(Rest) - 8 >= Rest[3] + 256 * Rest[4]
           THEN LET n == Rest[3] + 256 * Rest[4]
                IN at' = at + 8 + n /\ got' = Append(got, <<Rest[1], Rest[2], SubSeq(Rest, 9, 8 + n)>>)
           ELSE at' = -1 /\ UNCHANGED got
        /\ UNCHANGED <<es, raw, st>>
Next == \/ (at = 0 /\ got = <<>> /\ st = "written" /\ (Cut \/ Set))
        \/ Step
Spec == Init /\ [][Next]_vars
Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]
RoundTrip == (st = "written" /\ at = -1) => got = es
Prefixes == st = "cut" => Prefix(got, es)
\* a change inside a value or a type leaves all entries in place
Agree == at = -1 => got = Z!Read(raw).es
Whole == LET r == Z!Read(raw) IN r.whole <=> Z!Written(r.es) = raw
=============================================================================
