------------------------------- MODULE Gossip --------------------------------
(* Who is offered what of a batch of items, given a table of peers.          *)
(* e.table lists [p, conn, r], e.items [k, aff]; e.got says what each peer   *)
(* was offered.                                                              *)
EXTENDS Table

Peers(e) == {e.table[i].p : i \in {x \in 1..Len(e.table) : e.table[x].conn}}
RadOf(e, p) == (CHOOSE x \in Range(e.table) : x.p = p).r
Keys(e, aff) == {e.items[i].k : i \in {x \in 1..Len(e.items) : e.items[x].aff = aff}}
Want(e, k) == {p \in Peers(e) : Dist(p, k) <= RadOf(e, p)}
Getting(e, k) == {e.got[i].p : i \in {x \in 1..Len(e.got) : k \in Range(e.got[x].ks)}}
PerOffer == 64

\* No peer can be due more than an offer holds.
Small(e) == Len(e.items) <= PerOffer

BatchBad(e) ==
  LET a == [k \in Keys(e, TRUE) |-> Want(e, k)]
      all == Peers(e)
      got == [k \in Keys(e, TRUE) \cup Keys(e, FALSE) |-> Getting(e, k)]
      few == \A k \in DOMAIN a : Cardinality(a[k]) <= 8
  IN Clause("N08", \A i \in 1..Len(e.got) : Range(e.got[i].ks) \subseteq DOMAIN got, "something else than the item is offered")
     \cup Clause("N08", \A k \in DOMAIN a : got[k] \subseteq a[k], "gossips to a peer that is not connected or not interested")
     \cup Clause("N08", \A k \in Keys(e, FALSE) : got[k] \subseteq all, "gossips to a peer that is not connected")
     \cup Clause("N08", \A i, j \in 1..Len(e.got) : i # j => e.got[i].p # e.got[j].p, "a peer gets two offers of a batch")
     \cup Clause("N08", \A i \in 1..Len(e.got) : Cardinality(Range(e.got[i].ks)) = Len(e.got[i].ks), "an item is offered twice to a peer")
     \cup Clause("N08", \A i \in 1..Len(e.got) : Len(e.got[i].ks) \in 1..PerOffer, "an offer is empty or has too many keys")
     \cup Clause("N08", Small(e) => \A k \in DOMAIN a : got[k] \subseteq a[k] => RightChoice(a[k], k, got[k]),
                 "the closest interested peers and a few of the others are not those who get it")
     \cup Clause("N08", Small(e) => \A k \in Keys(e, FALSE) : Cardinality(got[k]) = Min(8, Cardinality(all)),
                 "content for everyone does not go to as many connected peers as it should")
     \cup Clause("N08", \A k \in Keys(e, FALSE) : Cardinality(got[k]) <= 8, "content for everyone goes to too many")
     \cup Clause("N08", \A k \in DOMAIN a : Cardinality(got[k]) <= 8, "an item goes to too many")
     \cup Clause("N08", ~Small(e) /\ few /\ Keys(e, FALSE) = {} =>
                         \A p \in all : Cardinality({k \in DOMAIN a : p \in got[k]}) = Min(PerOffer, Cardinality({k \in DOMAIN a : p \in a[k]})),
                 "an interested peer is offered less than an offer holds")
     \cup Clause("N08", e.count = Len(e.got), "states another number of peers than it offered to")
=============================================================================
