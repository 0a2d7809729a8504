----------------------------- MODULE QueryTrace -----------------------------
(* Recorded histories of the real node and content lookups.                  *)
EXTENDS Query, TraceBase

QInit(cfg) == NewQuery(cfg, cfg.start)

QStep(cfg, m, e) ==
  CASE e.e = "panic" -> {[s |-> m, bad |-> {<<"ANY", "the code panicked">>}]}
    [] e.e = "poll" ->
         {[s |-> Observe(cfg, m, e.out, e.p),
           bad |-> PollOk(cfg, m, e.out, e.p)
                   \cup (IF e.out # "validate" THEN {}
                         ELSE PokeOk(cfg, m, e.p, e.poke)
                              \cup Clause("N03", e.src = e.p /\ e.same,
                                          "validation is given other content than the peer returned"))]}
    [] e.e = "nodes" -> {[s |-> Succeed(cfg, m, e.p, e.names), bad |-> {}]}
    [] e.e = "content" -> {[s |-> Content(cfg, m, e.p), bad |-> {}]}
    [] e.e = "fail" -> {[s |-> Fail(m, e.p), bad |-> {}]}
    [] e.e = "verdict" -> {[s |-> Verdict(m, e.p, e.ok), bad |-> {}]}
    [] e.e = "tick" -> {[s |-> [m EXCEPT !.now = @ + e.by], bad |-> {}]}
    [] e.e = "end" -> {[s |-> m, bad |-> ResultOk(cfg, m, e.res, e.cancelled)
                                         \cup Clause(Id(cfg), e.same, "the result is not what the peer returned")]}
    [] e.e = "endless" -> {[s |-> m, bad |-> {<<Id(cfg), "the lookup does not end although nobody answers">>}]}
=============================================================================
