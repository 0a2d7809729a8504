---------------------------- MODULE SummariesMC ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Pers, Poss, Lens, MaxSteps
VARIABLES m, hist, bad, cfg, wait
Z == INSTANCE Summaries
vars == <<m, hist, bad, cfg, wait>>
One(S) == IF Len(hist) < 0 THEN {} ELSE {RandomElement(S)}
Per(n) == n - 2

Sources == {[op |-> "start", source |-> s, tag |-> 9, len |-> 3] : s \in {"oracle", "fixed", "absent"}}
NoDone == <<>>
Ask(id, per, pos) == [op |-> "ask", id |-> id, per |-> per, pos |-> pos, k |-> 0, how |-> "", len |-> 0, tag |-> 0]
Answer(k, how, len, tag) == [op |-> "answer", id |-> 0, per |-> 0, pos |-> 0, k |-> k, how |-> how, len |-> len, tag |-> tag]

\* The design as it is in the code: kept list first, then the source; on a hit the fetched list is kept.
DoAsk(id, per, pos) ==
  LET l == IF Z!Has(m.kept, per) THEN m.kept ELSE IF cfg.source = "fixed" /\ Z!Has(Z!Given(cfg), per) THEN Z!Given(cfg) ELSE Z!NoList
      e == [id |-> id, per |-> per, pos |-> pos,
            done |-> IF l # Z!NoList THEN <<[id |-> id, ok |-> TRUE, v |-> <<l[1], per>>]>>
                     ELSE IF per < 0 \/ cfg.source # "oracle" THEN <<[id |-> id, ok |-> FALSE, v |-> <<-1, -1>>]>> ELSE <<>>,
            req |-> IF l = Z!NoList /\ per >= 0 /\ cfg.source = "oracle" THEN <<[f |-> Len(hist), epoch |-> <<per, pos \div 32>>]>> ELSE <<>>]
      r == Z!AskStep(cfg, m, e)
  IN m' = r.s /\ bad' = r.bad /\ wait' = wait \cup {q.f : q \in Z!Range(e.req)}
DoAnswer(f, how, len, tag) ==
  LET id == m.fetch[f]
      i == m.asks[id][1]
      hit == how = "list" /\ Z!Has(<<tag, len>>, i)
      e == [f |-> f, how |-> how, len |-> len, tag |-> tag, req |-> <<>>,
            done |-> <<[id |-> id, ok |-> hit, v |-> IF hit THEN <<tag, i>> ELSE <<-1, -1>>]>>]
      r == Z!AnswerStep(cfg, m, e)
  IN m' = r.s /\ bad' = r.bad /\ wait' = wait \ {f}

Init == cfg \in Sources /\ m = Z!Start(cfg) /\ hist = <<>> /\ bad = {} /\ wait = {}
Next == /\ Len(hist) < MaxSteps /\ UNCHANGED cfg
        /\ \/ \E p \in Pers, q \in Poss : DoAsk(Len(hist) + 1, Per(p), q) /\ hist' = Append(hist, "ask")
           \/ \E f \in wait, h \in {"list", "error"}, n \in Lens : DoAnswer(f, h, n, Len(hist) + 1) /\ hist' = Append(hist, "answer")
Spec == Init /\ [][Next]_vars
Design == bad = {}
\* Every open question has its own list on the way.
Served == cfg.source = "oracle" => \A id \in DOMAIN m.asks : \E f \in wait : m.fetch[f] = id

----------------------------------------------------------------------------
GInit == cfg = 0 /\ m = 0 /\ bad = 0 /\ wait = 0 /\ hist = <<>>
GNext == UNCHANGED <<m, bad, cfg, wait>> /\ Len(hist) < MaxSteps
  /\ IF hist = <<>>
     THEN \E s \in One({"oracle", "oracle", "oracle2", "oracle3", "oracle4", "fixed", "absent"}), n \in One(Lens) :
            hist' = <<[op |-> "start", source |-> IF s \in {"fixed", "absent"} THEN s ELSE "oracle", tag |-> 99, len |-> n]>>
     ELSE \E r \in One(1..20) :
            IF r <= 9 THEN \E p \in One(Pers), q \in One(Poss), b \in One(1..12) :
                             hist' = Append(hist, Ask(Len(hist), CASE b = 1 -> 999999 [] b = 2 -> -758 [] OTHER -> Per(p), q))
            ELSE \E k \in One({0, 0, 1, 2}), n \in One(Lens) :
                   hist' = Append(hist, Answer(k, CASE r = 10 -> "cut" [] r = 11 -> "text" [] r = 12 -> "error" [] r = 13 -> "drop" [] OTHER -> "list", n, Len(hist)))
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxSteps =>
  Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
