------------------------------ MODULE WireTrace ------------------------------
(* Recorded calls of the real encoders and decoders.                         *)
EXTENDS Wire, TraceBase

WInit(cfg) == [n |-> 0]


WStep(cfg, p, e) ==
  {[s |-> p, bad |->
    CASE e.e = "panic" -> {<<"ANY", "the code panicked">>}
      [] e.e = "items" ->
           LET r == Enc(e.items) IN
           Clause("W01", e.ok /\ e.enc = r, "a list is encoded differently")
           \cup UNION {LET d == e.dec[i] IN
                         DecodeOk(Cat(Take(r, Size(r) - d.cut), Runs(d.add)), d.res, d.one) : i \in 1..Len(e.dec)}
      [] e.e = "raw" -> DecodeOk(Runs(e.bytes), e.many, FALSE) \cup DecodeOk(Runs(e.bytes), e.single, TRUE)
      [] e.e = "codes" -> CodesOk(e.ver, e.codes, e)
      [] e.e = "rawcodes" -> RawCodesOk(e.ver, e.bytes, e.res)]}
=============================================================================
