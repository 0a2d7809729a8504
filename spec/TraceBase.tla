----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of recorded implementation traces.                            *)
(*                                                                          *)
(* The file named by the environment variable TRACES holds one JSON object  *)
(* per line: [id, cfg, ev], where ev is a sequence of events, one per       *)
(* action of the specification, each with its arguments and everything      *)
(* that was observed when it had completed.                                 *)
(*                                                                          *)
(* A specification supplies TInit (the state described by cfg) and TStep,   *)
(* the set of ways in which it can follow an event.  Every way names the    *)
(* clauses it breaks as pairs <<property, text>>.  Only the clauses of the  *)
(* property in FOCUS count; a trace is accepted when some path through its  *)
(* events breaks none of them.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInit(_), TStep(_, _, _)

VARIABLES t, l, s

Traces == ndJsonDeserialize(IOEnv.TRACES)
Focus  == IOEnv.FOCUS

TraceInit == /\ t \in 1..Len(Traces)
             /\ l = 1
             /\ s = TInit(Traces[t].cfg)

Broken(o) == {x \in o.bad : x[1] = Focus \/ x[1] = "ANY"}

TraceNext ==
  /\ l <= Len(Traces[t].ev)
  /\ \E o \in TStep(Traces[t].cfg, s, Traces[t].ev[l]) :
       /\ \/ Broken(o) = {}
          \/ PrintT(<<"BROKEN", t, l, Broken(o)>>) /\ FALSE
       /\ s' = o.s
  /\ l' = l + 1
  /\ t' = t

TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, s>>

\* The highest position reached in every trace (single worker).
Reach == IF l = 1 THEN TLCSet(t, 1)
         ELSE IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE

Stuck == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].ev)}

Accepted ==
  /\ \A i \in Stuck : PrintT(<<"STUCK", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality(Stuck)>>)
=============================================================================
