------------------------------- MODULE Wants -------------------------------
(***************************************************************************)
(* What the stores of the networks say they want (S02), hand back when they *)
(* drop it (S03), serve and list (S06).  Keys are numbered by their         *)
(* distance from the node.  A view of a store is                            *)
(*   near   the keys within the radius it advertises                        *)
(*   kept   the keys it serves something for                                *)
(*   want   per key what the store says: "store", "have", "far"             *)
(*   batch  the same, asked for all keys at once                            *)
(*   other  the keys for which something else is served than was put first  *)
(*   pages  the keys listed, page after page, and total, their number as    *)
(*          reported with every page                                        *)
(* and ret are the keys handed back by a put, those in odd not with their   *)
(* own values.  The state network drops without handing back.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Clause(p, ok, text) == IF ok THEN {} ELSE {<<p, text>>}
Range(s) == {s[i] : i \in DOMAIN s}
Unknown == [near |-> {}, kept |-> {}]

Said(e, w) ==
  Clause("S02", \A k \in DOMAIN w : w[k] = "store" => k \in Range(e.near), "content is wanted that is outside the radius")
  \cup Clause("S02", \A k \in DOMAIN w : w[k] = "store" => k \notin Range(e.kept), "content is wanted that is already stored")
  \cup Clause("S02", \A k \in DOMAIN w : (k \in Range(e.near) /\ k \notin Range(e.kept)) => w[k] = "store",
              "content within the radius that is missing is not wanted")

Clauses(cfg, m, e) ==
  Said(e, e.want) \cup Said(e, e.batch)
  \cup Clause("S06", e.other = <<>>, "another value is served than was stored")
  \cup Clause("S06", Len(e.pages) = Cardinality(Range(e.kept)) /\ Range(e.pages) = Range(e.kept), "the pages do not list every key once")
  \cup Clause("S06", Range(e.total) \subseteq {Cardinality(Range(e.kept))}, "a page states another number of keys than there are")
  \cup Clause("S02", \A k \in Range(e.near) : 1..k \subseteq Range(e.near), "a key is within the radius and a closer one is not")
  \cup CASE e.e = "put" ->
              Clause("S02", e.ok = (e.k \in m.near), "content is refused within the radius, or taken outside of it")
              \cup Clause("S02", Range(e.kept) # {} => Range(e.near) \subseteq m.near, "the radius grows")
              \cup Clause("S02", m.kept \subseteq Range(e.kept) \/ Range(e.kept) \subseteq Range(e.near) \/ ~(m.kept \subseteq m.near),
                          "after making room something kept lies outside the radius")
              \cup (LET gone == (m.kept \cup (IF e.ok THEN {e.k} ELSE {})) \ Range(e.kept)
                    IN IF cfg.net # "history" THEN Clause("S03", e.ret = <<>>, "something is handed back that should not be")
                       ELSE Clause("S03", gone \subseteq Range(e.ret), "something is dropped without being handed back")
                            \cup Clause("S03", Range(e.ret) \subseteq gone, "something is handed back that is still stored or never was")
                            \cup Clause("S03", Len(e.ret) = Cardinality(Range(e.ret)), "something is handed back twice")
                            \cup Clause("S03", e.odd = <<>>, "something is handed back with another value"))
              \cup Clause("S02", ~e.ok => Range(e.kept) = m.kept, "refused content changes the store")
         [] e.e = "open" -> Clause("S02", Range(e.near) \subseteq 1..e.max, "the radius is larger than the largest one allowed")
                            \cup Clause("S02", e.cap = 0 => Range(e.near) = {}, "a store without capacity advertises a radius")
         [] OTHER -> {<<"ANY", "unknown event">>}
Next(e) == [near |-> Range(e.near), kept |-> Range(e.kept)]
=============================================================================
