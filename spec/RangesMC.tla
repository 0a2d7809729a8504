------------------------------ MODULE RangesMC ------------------------------
EXTENDS Ranges, Json, IOUtils
CONSTANTS Epochs, Offsets, Bases
VARIABLE x
Blocks == Epochs \X Offsets
Malformed == {"single:", "single:r", "single:r5", "single:r1-2-3", "single:rx-y", "single:r-5", "single:r5-", "single:x1-2",
  "single:r18446744073709551616-18446744073709551617", "single:r1 - 2", "snapshot:", "snapshot:x", "snapshot:-1", "other:r1-2",
  "", "single", "single:é", "single:r1-é", "latest:", ":", "r1-2"}
Init == \/ \E a, b \in Blocks, f \in Bases : x = [op |-> "split", a |-> a, b |-> b, base |-> f, text |-> ""] /\ Leq(a, b)
        \/ \E a, b \in Blocks, f \in Bases : x = [op |-> "range", a |-> a, b |-> b, base |-> f, text |-> ""]
        \/ \E a \in Blocks, f \in Bases : x = [op |-> "snapshot", a |-> a, b |-> a, base |-> f, text |-> ""]
        \/ \E t \in Malformed : x = [op |-> "malformed", a |-> <<0, 0>>, b |-> <<0, 0>>, base |-> 0, text |-> t]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
\* With a small epoch: the pieces partition the range.
Lemma == x.op = "split" =>
  LET s == Split(x.a, x.b)
      all == {y \in (x.a[1]..x.b[1]) \X (0..Epoch - 1) : Leq(x.a, y) /\ Leq(y, x.b)}
  IN /\ UNION {Piece(e, s[e]) : e \in DOMAIN s} = all
     /\ \A e, f \in DOMAIN s : e # f => Piece(e, s[e]) \cap Piece(f, s[f]) = {}
Emit == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
