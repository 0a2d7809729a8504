"""Writes properties.jsonl."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ST="crates/storage/src/versioned/id_indexed_v1/"
p("S01","Content storage never outgrows its capacity and drops only the farthest items",
 "After every completed store operation and every start-up, the estimated disk use of a radius-limited content store (item sizes plus the fixed per-item overhead) is at most its configured capacity. Items are removed only when the capacity is exceeded, and no kept item is farther from the local node than an item removed in the same operation (distances compared at the 32-bit precision that is stored). One clean-up never removes more than needed: with equally sized items it leaves the use above 95 % of capacity minus one item.",
 ["histories","inputs","configurations"],"every sequence of insertions, re-insertions, deletions and restarts with changed capacity, for all item sizes and distances",
 "The unit tests insert one size of random content into a fresh store and look at counts; they never vary sizes, re-insert, delete or restart between prunings, and never compare what was dropped with what was kept.",
 [ST+"store.rs",ST+"pruning_strategy.rs",ST+"sql.rs","crates/storage/src/versioned/usage_stats.rs"],
 [("prune loop",ST+"store.rs: prune"),("pruning decision and amount",ST+"pruning_strategy.rs: should_prune, get_pruning_count"),("farthest-first deletion",ST+"sql.rs: delete_farthest")],
 ["lookups of every key after each operation","database rows","radius","usage figures"],
 [("usage_stats","entry count and byte total tracked in memory",ST+"store.rs"),("rows","content table",ST+"sql.rs")])
p("S02","The advertised radius always agrees with what the content store keeps and takes",
 "The radius is the configured maximum while use is at most 95 % of capacity at start-up, zero for a zero-capacity store, and otherwise the distance of the farthest item kept; it never exceeds the maximum and, while the store stays open and holds something, never grows. An item is accepted exactly when its distance is at most the radius, and unless the configured maximum is smaller every item kept after a clean-up lies within the radius (at stored precision). Content is reported as wanted exactly when it is within the radius and not yet stored.",
 ["histories","inputs","configurations"],"every sequence of insertions, deletions and restarts with any capacity and any maximum radius, and every content distance including the boundary",
 "Tests look at the radius after one bulk insertion; nothing checks acceptance at the exact boundary, after several clean-ups, or after a restart in each of the start-up cases.",
 [ST+"store.rs","crates/subnetworks/legacy-history/src/storage.rs","crates/subnetworks/state/src/storage.rs","crates/storage/src/lib.rs"],
 [("radius on start-up",ST+"store.rs: init"),("radius after pruning",ST+"store.rs: set_radius_to_farthest"),("acceptance test",ST+"store.rs: insert"),("wanted decision","crates/subnetworks/*/src/storage.rs: should_we_store")],
 ["radius()","result of insert","should-we-store answer"])
p("S03","Everything dropped to make room is handed back exactly once with its value",
 "Whenever storing an item makes the store drop other items, the operation returns exactly the dropped items, each once, with the key and the value that were stored. Nothing that is still stored is returned, and nothing disappears without being returned while the store is open.",
 ["histories","inputs"],"every sequence of store operations, including ones that trigger several clean-up batches and repeated storing of the same key",
 "Tests only count what is left; no test compares the returned list with the difference of the contents before and after.",
 [ST+"store.rs","crates/subnetworks/legacy-history/src/storage.rs","crates/subnetworks/state/src/storage.rs"],
 [("returned evictions",ST+"store.rs: prune, insert"),("hand-over to gossip","crates/subnetworks/*/src/storage.rs: put")],
 ["return value of the store operation","contents before and after"])
p("S04","Reported usage always equals what is stored",
 "At every point between operations the number of entries and the number of bytes that a content store reports equal the number and total size of the items it holds. This holds for radius-limited and for short-lived stores, in spite of repeated insertions of one key, deletions of missing keys, clean-ups and restarts.",
 ["histories","inputs"],"every sequence of insert, re-insert, delete, clean-up and restart",
 "Tests insert only fresh random keys, so the counters are never compared with the table after a duplicate insertion or a failed deletion.",
 [ST+"store.rs","crates/storage/src/versioned/usage_stats.rs","crates/storage/src/versioned/ephemeral_v1/store.rs"],
 [("counter updates",ST+"store.rs: insert, delete, prune"),("recount",ST+"store.rs: init_usage_stats"),("short-lived store counters","crates/storage/src/versioned/ephemeral_v1/store.rs")],
 ["usage_stats()","total entry count of a listing","database rows"])
p("S05","A crash or restart loses nothing stored and refuses foreign databases",
 "After a process is killed at any point and restarted with the same identity and capacity, every item whose store operation had completed (and which was not dropped) is present with its value, no item is present that was never stored, and the counters describe exactly what is there. Opening a database that belongs to another node identity or to another store version fails instead of serving it.",
 ["crash_points","histories","configurations"],"every database statement of every operation sequence as a kill point, and every combination of old and new identity, version and capacity",
 "No test kills the process; the restart tests reopen an idle store once.",
 [ST+"store.rs","crates/storage/src/versioned/utils.rs","crates/storage/src/utils.rs","crates/storage/src/sql.rs"],
 [("journal mode and table creation","crates/storage/src/utils.rs: setup_sql"),("recount and radius on open",ST+"store.rs: init"),("identity check",ST+"store.rs: init"),("version check","crates/storage/src/versioned/utils.rs: create_store")],
 ["contents, radius and counters after reopening"])
p("S06","Stored content reads back unchanged and listings page through all of it",
 "Looking up a key returns the value first stored under it until the item is deleted or dropped, and reports absence otherwise; storing one key never changes what another key returns. Concatenating consecutive pages of the key listing, for every page size, yields every stored key exactly once.",
 ["histories","inputs"],"every history of insertions, overwrites, deletions and clean-ups and every page offset and limit",
 "Tests check single inserts and one pagination layout over freshly inserted keys.",
 [ST+"store.rs",ST+"sql.rs","crates/subnetworks/legacy-history/src/storage.rs","crates/subnetworks/state/src/storage.rs","crates/storage/src/lib.rs"],
 [("lookup",ST+"store.rs: lookup_content_key, lookup_content_value, has_content"),("paging",ST+"store.rs: paginate")],
 ["get by key and by content id","paginate"])
p("S07","The beacon store answers each request with the right, freshest item",
 "The beacon content store returns a bootstrap only for the block root it was stored under, a range of updates only when every period of the range is stored and in period order, and a finality or optimistic update or historical summaries only when the stored one is recent enough for the requested slot or epoch; a newer item always takes the place of an older one. Items that are already available are not asked for again, persisted items survive a restart, and only bootstraps older than four months are ever pruned.",
 ["histories","inputs"],"every sequence of storing and requesting items of all five kinds with arbitrary slots, periods, epochs and roots, and restarts in between",
 "Tests store one item of each kind and read it back; missing periods, older and newer slots and re-storing are not combined.",
 ["crates/subnetworks/beacon/src/storage.rs","crates/storage/src/sql.rs"],
 [("lookup per kind","crates/subnetworks/beacon/src/storage.rs: get, put, should_we_store"),("tables","crates/storage/src/sql.rs")],
 ["get / put / wanted answers of the beacon storage"])
p("S08","State data is stored as the bare trie node or code its key commits to",
 "When state content that carries a proof is stored, what is kept is exactly the last node (or the code) whose hash equals the hash in the key, and content whose hash does not match, or whose proof is empty, is refused and leaves the store unchanged. Reading the key afterwards yields that node in the form served to peers, and offered values are never returned with their proof attached; the keys listed and the content reported as already stored are exactly what is held, also after a restart.",
 ["inputs","histories"],"all node and code values, matching and mismatching hashes, proofs of every length, in any order",
 "Tests use a few fixed fixtures, all of them valid.",
 ["crates/subnetworks/state/src/storage.rs"],[("conversion on store","crates/subnetworks/state/src/storage.rs: put")],["put result","get after put"])
p("S09","Total storage capacity is divided completely among the enabled networks",
 "With one combined capacity, every enabled network receives its share, shares never add up to more than the total, and nothing but rounding is lost; networks that keep no radius-limited data receive nothing. With individual capacities each network receives exactly its own figure, and asking for a network that is not enabled is an error.",
 ["configurations"],"every subset and order of enabled networks and every capacity",
 "Tests list a handful of combinations.",
 ["crates/storage/src/config.rs"],[("split","crates/storage/src/config.rs: PortalStorageConfigFactory::create")],["capacity of the created configuration"])
PN="crates/portalnet/src/"
p("N01","One inbound transfer per content item, falling back to another offerer",
 "While an item is being transferred from one peer, further offers of it are declined and remembered as alternatives rather than accepted twice. When the transfer fails, one of the remembered alternatives, never the peer that just failed, is asked for the item once (only where the radius applies to the item); from the moment the offered transfer failed or succeeded the item is acceptable again. Items of one offer that fail do not block the other items.",
 ["schedules","histories","fault_sequences"],"every interleaving of offers from several peers for overlapping items with successful, failing and timed-out transfers",
 "Unit tests exercise the queue with a single key; the interaction of concurrent offers, failures and expiry is timing dependent and not covered.",
 [PN+"accept_queue.rs",PN+"overlay/service/offer.rs"],
 [("pending transfers and alternatives",PN+"accept_queue.rs"),("fallback",PN+"overlay/service/offer.rs: fallback_find_content")],
 ["accept codes in offer replies","content requests sent after a failed transfer"])
p("N02","Node lookup terminates and returns the closest nodes that answered",
 "A node lookup ends after finitely many events whatever peers answer, never has more requests in flight than the parallelism allows, and never contacts a peer twice. Its result consists of peers that answered, closest first, at most the configured number. It does not end while it knows an uncontacted peer closer than the ones it would return, except where every remaining peer failed or timed out.",
 ["schedules","fault_sequences","inputs"],"every order of replies, failures and timeouts from any peers reporting any further peers",
 "Property tests in the repository sample random topologies with immediate answers and do not follow timeouts, late answers and duplicates systematically.",
 [PN+"find/iterators/findnodes.rs",PN+"find/iterators/query.rs",PN+"find/query_pool.rs"],
 [("lookup state machine",PN+"find/iterators/findnodes.rs"),("polling and timeout",PN+"find/query_pool.rs")],
 ["next peer to contact","result of the lookup"])
p("N03","Content lookup asks closer peers first, stops on valid content, never loops",
 "A content lookup contacts each peer at most once and never more in parallel than allowed, ends after finitely many events, and prefers peers closer to the content. Content returned by any peer is offered for validation; the first content that validates is the result together with the peer that supplied it and the peers that lacked it, while content that fails validation never becomes the result and does not stop the lookup.",
 ["schedules","fault_sequences","inputs"],"every order of answers with content, closer nodes, connection hand-over, failures, timeouts and validation outcomes",
 "Existing tests run fixed or random topologies where the first answer is valid.",
 [PN+"find/iterators/findcontent.rs",PN+"find/query_pool.rs",PN+"overlay/service/find_content.rs"],
 [("lookup state machine",PN+"find/iterators/findcontent.rs"),("validation and callback",PN+"overlay/service/find_content.rs")],
 ["next peer to contact","result of the lookup"])
p("N04","Concurrent transfers never exceed their limits and every slot is returned",
 "At any moment the number of accepted offers being received (with their follow-up attempts) and the number of outgoing transfers (to requesters and of received content passed on) are each at most the configured limit, and a transfer is declined or left out exactly when its limit is reached. A slot is returned when the transfer ends, however it ends, so that after all transfers have ended the full limit is available again.",
 ["schedules","fault_sequences"],"every interleaving of transfer starts, completions, failures and abandoned transfers in both directions",
 "The tests never run more than a few transfers and none that is abandoned half-way.",
 [PN+"utp/timed_semaphore.rs",PN+"utp/controller.rs",PN+"overlay/service/offer.rs",PN+"overlay/service/find_content.rs"],
 [("permits",PN+"utp/timed_semaphore.rs"),("acquisition points",PN+"overlay/service/offer.rs, find_content.rs")],
 ["accept codes","content replies","number of open transfers"])
p("N05","Every offered key gets exactly one answer that matches the node's situation",
 "An offer is answered with one code per offered key in order: accepted only for content that is wanted, not already being received and for which a transfer slot is free; otherwise the code names the reason (already stored, not within radius, transfer in progress, rate limited). A connection is opened exactly when something is accepted, and peers speaking the older protocol receive the same decisions as plain yes or no.",
 ["inputs","histories","configurations"],"every list of offered keys and every state of storage, ongoing transfers, slots and peer protocol version",
 "Tests cover one or two keys in one storage state.",
 [PN+"overlay/service/offer.rs","crates/ethportal-api/src/types/accept_code.rs","crates/ethportal-api/src/types/portal_wire.rs"],
 [("decision per key",PN+"overlay/service/offer.rs: handle_offer"),("encoding","crates/ethportal-api/src/types/accept_code.rs")],
 ["reply to an offer"])
p("N06","Only validated content is stored, served onward or gossiped",
 "Content received from peers, by offer or by lookup, is stored only after validation succeeded, for exactly the key it was validated under and only if the storage wants it; it is gossiped onward only in the cases the validation outcome allows. Content that fails validation or cannot be matched to the offered keys is never stored or gossiped, and does not prevent valid items of the same transfer from being handled.",
 ["inputs","schedules","fault_sequences"],"every combination of validation outcomes, payload shapes and storage states over the items of a transfer or lookup",
 "The existing tests use a validator that always agrees.",
 [PN+"overlay/service/offer.rs",PN+"overlay/service/find_content.rs",PN+"put_content.rs"],
 [("validate then store",PN+"overlay/service/offer.rs: validate_and_store_content"),("lookup result handling",PN+"overlay/service/find_content.rs")],
 ["store contents","gossip sent"])
p("N07","Peer records only move forward and only live peers are handed out",
 "The record kept for a peer is replaced by a discovered one exactly when that has a higher sequence number, whatever order messages arrive in, and a known peer that announces a higher number is asked for its record. Answers to node requests contain the nodes of the local table that are currently connected and at the requested distances (and the node's own record for distance zero), never the asking peer itself, and leave some out only for lack of space in one message. Gossip and lookups start from connected peers only.",
 ["schedules","histories","inputs"],"every order of sessions, pings, record updates, failures and requests",
 "Tests cover single transitions of one peer.",
 [PN+"types/kbucket.rs",PN+"overlay/service/manager.rs",PN+"overlay/service/find_nodes.rs"],
 [("record update rule",PN+"types/kbucket.rs"),("connected-only selection",PN+"types/kbucket.rs"),("distance filter",PN+"overlay/service/find_nodes.rs")],
 ["replies to node requests","stored peer records"])
p("N08","Gossip reaches only interested connected peers, the closest ones first",
 "Content is gossiped only to connected peers whose radius covers it, to the closest of them plus a bounded number of farther ones, each at most once per item and each offer within the per-offer key limit. Content the radius does not apply to goes to a bounded number of connected peers whatever their radius; when no peer is interested nothing is sent.",
 ["inputs","configurations","histories"],"every table of peers with arbitrary distances, radii and connection states and every batch of content",
 "Tests use tables of a few peers with identical radii.",
 [PN+"gossip/neighborhood.rs",PN+"gossip/random.rs",PN+"gossip/mod.rs",PN+"types/kbucket.rs"],
 [("recipient choice",PN+"gossip/neighborhood.rs"),("interest",PN+"types/kbucket.rs")],
 ["offers sent per peer"])
p("N09","A content request is answered with the content, a transfer, or closer peers",
 "When the node has the requested content and an outgoing slot is free, it sends it inline if and only if it fits into one message and otherwise announces a transfer; when it lacks it or no slot is free, it names connected peers nearest to the content, closest first, excluding the requester and within the message size limit (none for content the radius does not apply to). Malformed requests never make it answer with other content.",
 ["inputs","configurations","histories"],"every stored size around the limit, every slot state and every peer table",
 "Tests never place content sizes at the boundary or combine them with exhausted slots.",
 [PN+"overlay/service/find_content.rs",PN+"overlay/service/utils.rs"],
 [("reply selection",PN+"overlay/service/find_content.rs: handle_find_content"),("size limiting",PN+"overlay/service/utils.rs")],
 ["reply to a content request"])
p("N10","Events reach the network they belong to, and only registered networks",
 "Every incoming request is delivered to exactly the sub-network whose protocol it names and to no other; requests for networks that are not running are dropped without affecting others, and events that concern all networks reach each other running one once.",
 ["schedules","configurations"],"every set of running networks and every sequence of events",
 "Covered by no test.",
 [PN+"events.rs"],[("dispatch",PN+"events.rs: PortalnetEvents")],["channels of the sub-networks"])
p("N11","Ping and pong keep each peer's radius and capabilities current",
 "A ping is answered in kind with the node's own current radius, or with an error answer when the extension is unsupported. A well-formed ping or pong from a known peer updates exactly what its payload states about that peer, malformed ones change nothing, and the node itself always pings with the newest extension both sides support.",
 ["inputs","histories"],"every extension type, payload, capability set and order of pings and pongs",
 "Tests check individual payload encodings.",
 [PN+"overlay/service/ping/mod.rs",PN+"overlay/service/ping/handlers.rs",PN+"overlay/ping_extensions.rs"],
 [("answering",PN+"overlay/service/ping/mod.rs"),("updating",PN+"overlay/service/ping/handlers.rs")],
 ["pong sent","peer radius and capabilities kept"])
p("N12","A direct request returns what its peer answered; offers send what was accepted",
 "A request sent to one named peer goes to that peer as it was made and ends with exactly one result: what that peer answered, or an error; requests that are malformed or that the peer could not understand are refused. Content is returned only when it is valid for the key asked for, whether it came in the answer or by a transfer at the announced connection. After an offer exactly the items the peer accepted are sent, in the order offered and over the connection it announced, and a traced offer reports success, with the peer's codes, only when nothing was accepted or the transfer was completed.",
 ["interleavings","faults","histories"],"several requests to several peers at once, of every kind, with every answer, broken transfers and peers of every protocol version",
 "Tests cover the checks of requested distances only.",
 [PN+"overlay/protocol.rs",PN+"overlay/service/offer.rs",PN+"utp/controller.rs"],
 [("requests",PN+"overlay/protocol.rs: send_find_content"),("transfers of offers",PN+"overlay/service/offer.rs: process_accept")],["requests on the wire","results of calls","items sent"])
p("W01","Multi-item payloads and accept answers survive every encoding round trip",
 "Decoding what was encoded returns the same list of items for every number and length of items, in order; every truncated, over-long or inconsistent payload is rejected and never yields a different list. Answer codes keep their meaning across the wire in both protocol versions.",
 ["inputs"],"every list of items, every cut of a payload and every list of answer codes",
 "Tests decode a few fixed examples.",
 [PN+"utils/portal_wire.rs","crates/ethportal-api/src/types/accept_code.rs"],
 [("framing",PN+"utils/portal_wire.rs"),("codes","crates/ethportal-api/src/types/accept_code.rs")],["decoded lists"])
p("W02","Peers always settle on the newest protocol version they share",
 "For any two sets of supported protocol versions the negotiated version is the highest both support, both sides reach the same result, and when nothing is shared the peer is treated as incompatible instead of being spoken to in a version it does not know. A peer that does not announce versions counts as supporting only the original one.",
 ["configurations","inputs"],"every pair of version sets",
 "Tests cover a few pairs.",
 ["crates/ethportal-api/src/types/protocol_versions.rs","crates/ethportal-api/src/types/network_spec.rs"],
 [("negotiation","crates/ethportal-api/src/types/network_spec.rs: latest_common_protocol_version"),("ENR field","crates/ethportal-api/src/types/protocol_versions.rs")],["negotiated version"])
p("W03","A content key and its encoding determine each other and the content's id",
 "Every content key of every network decodes from its encoding, binary or hexadecimal, to the same key, and the encoding is the number of the key's type followed by its fields. Bytes that encode no key are refused without a crash. The content id is the SHA-256 of the encoding, except for bodies and receipts asked for by block number, where it is the number's sixteen lowest bits, then its other bits reversed, and at the end the type.",
 ["inputs"],"keys of every type with telling field values, paths of every length, and damaged encodings of all of them",
 "Tests hold one fixed example per key type and never decode damaged bytes.",
 ["crates/ethportal-api/src/types/content_key/","crates/ethportal-api/src/types/state_trie/nibbles.rs"],
 [("keys","crates/ethportal-api/src/types/content_key/"),("paths","crates/ethportal-api/src/types/state_trie/nibbles.rs")],["decoded keys","encodings","content ids"])
p("W04","Every protocol message survives its encoding; malformed ones are refused",
 "Each request and response, and each ping payload, decodes from its encoding to the same message, and the encoding is the one the protocol lays down. Bytes that encode no message are refused without a crash and never taken, in part or as a whole, for some other message. Requests are never taken for responses or the other way round.",
 ["inputs"],"messages of every type with telling field values up to the size limits, and damaged encodings of them",
 "Tests hold a few fixed examples and hardly decode damaged bytes.",
 ["crates/ethportal-api/src/types/portal_wire.rs","crates/ethportal-api/src/types/ping_extensions/","crates/ethportal-api/src/types/enr.rs"],
 [("messages","crates/ethportal-api/src/types/portal_wire.rs"),("ping payloads","crates/ethportal-api/src/types/ping_extensions/")],["decoded messages","encodings"])
p("V07","Block bodies, receipts and headers are taken only under the key they belong to",
 "Bytes offered as the body of a block are accepted exactly when they are the encoding of the transactions, uncles and withdrawals that the block's header commits to, complete and in order, and receipts exactly when they are the encoding of the header's receipts. Nothing is accepted when the header cannot be found, and nothing that has bytes added, left out or changed. A header is accepted only under its own hash or its own number, and only with its proof.",
 ["inputs"],"blocks with lists of every small shape, everything of that kind sent for each of them, stray bytes after every item and damage at every place of the encoding",
 "Tests validate a handful of main-net blocks and change one field; they never leave out a whole list or append bytes.",
 ["crates/subnetworks/legacy-history/src/validation.rs","crates/ethportal-api/src/types/execution/"],
 [("validator","crates/subnetworks/legacy-history/src/validation.rs"),("bodies","crates/ethportal-api/src/types/execution/block_body.rs"),("receipts","crates/ethportal-api/src/types/execution/receipts.rs"),("headers","crates/ethportal-api/src/types/execution/ssz_header.rs")],["validation results","encodings"])
LC="crates/light-client/src/consensus/consensus_client.rs"
p("L01","The light client only ever follows headers signed by enough of the committee",
 "The finalized header changes only to a newer one proven by a valid update with at least two thirds of the committee in charge of that period, and the optimistic header only to a newer one signed by more than the safety threshold. Updates with no participants, wrong slot order, wrong period, an invalid finality or committee proof or an invalid signature are rejected without any effect on what the client believes.",
 ["histories","inputs","schedules"],"every sequence of bootstrap, period updates, finality and optimistic updates, honest or forged, in any order",
 "The tests feed recorded main-net updates, one tampered field at a time, to a freshly bootstrapped client.",
 [LC],[("verification",LC+": verify_generic_update"),("application",LC+": apply_generic_update")],["finalized and optimistic headers after each update"])
p("L02","The light client's committees rotate exactly at period boundaries",
 "The current committee changes only to the committee previously proven as its successor, exactly when the finalized header enters the next period, and a successor is adopted only from a verified update. Between bootstraps the finalized slot and the optimistic slot never go backwards, the optimistic header is never behind the finalized one, and a bootstrap is accepted only when it matches the trusted checkpoint and its committee proof.",
 ["histories","inputs"],"every sequence of updates over several committee periods, including gaps and repetitions",
 "Tests span at most two periods of recorded data.",
 [LC],[("rotation",LC+": apply_generic_update"),("bootstrap",LC+": bootstrap")],["store after each update"])
p("L03","The light client asks for each period it needs and tells what moved it",
 "Starting up asks for the updates of every period from that of the checkpoint up to the present, each once and in order, and following the chain asks for the update of the finalized period when, and only when, the next committee is not known. Those who watch the client are told exactly the last update of each kind that moved one of its headers. A strict client refuses a checkpoint that has reached the age limit without any effect, any other client starts from it.",
 ["histories","inputs","configurations"],"every sequence of start-ups and steps with honest or forged answers, both kinds of sources, checkpoints just below and above the age limit",
 "No test looks at what is asked for or told to watchers, nor at the age limit.",
 [LC,"crates/light-client/src/watch.rs"],[("requests",LC+": sync, advance"),("watchers",LC+": apply_update, apply_finality_update, apply_optimistic_update"),("age",LC+": is_valid_checkpoint")],["requests made of the source","values held by the watch channels","result of a start-up"])
p("V01","The followed chain head never moves backwards",
 "For every order in which head, finality and summary updates arrive, the latest header and the finalized header that the node reports are the newest of their kind received so far, so that their slots never decrease, and known historical summaries are never replaced by a shorter list.",
 ["histories","schedules"],"every interleaving of head, finality and summary updates",
 "Covered by single-update tests only.",
 ["crates/validation/src/chain_head/store.rs","crates/validation/src/chain_head/mod.rs"],
 [("monotone replacement","crates/validation/src/chain_head/store.rs")],["chain head read after each update"])
p("V02","A header is accepted only with a proof valid for its own era",
 "A block header is accepted only when its proof is of the kind its fork requires and really commits to that header under the node's trusted roots; every change of header, slot, proof element, position or kind makes it rejected. No header or proof, however malformed, stops the node.",
 ["inputs","configurations"],"every fork, every position in its era and every single change of proof or header",
 "Tests use a dozen recorded headers with one kind of corruption.",
 ["crates/validation/src/header_validator.rs","crates/validation/src/merkle/proof.rs","crates/validation/src/historical_roots_acc.rs"],
 [("proof selection and check","crates/validation/src/header_validator.rs"),("branch check","crates/validation/src/merkle/proof.rs")],["validation result"])
p("V03","Merkle proofs generated by the node verify, and nothing else does",
 "For every tree built from any leaves, by bulk creation or by any sequence of additions, the root is the same, every generated branch verifies for its own leaf and position, and it does not verify for another leaf, position or root. Trees accept leaves up to their capacity and refuse more, also after being partly finalised.",
 ["histories","inputs"],"every tree depth and leaf count within bounds and every order of construction steps",
 "Random tests cover construction but not finalisation or wrong positions.",
 ["crates/validation/src/merkle/proof.rs"],[("tree","crates/validation/src/merkle/proof.rs: MerkleTree"),("verification","crates/validation/src/merkle/proof.rs: verify_merkle_proof")],["roots and proofs"])
p("V04","State content is accepted only when its proof leads along the path to it",
 "A trie-node, storage or code offer is accepted exactly when each node of its chain is referenced by the previous one along the key's path and the last one has the hash and path of the key; a storage chain starts at the storage root, and code has the code hash, of the account the accompanying account chain leads to. Any other chain, path, hash or root is rejected, a bare node or code counts only when its hash is that of the key and never as an offer, and malformed nodes never stop the node.",
 ["inputs"],"every small trie, every path in it and every single change of node, order, path or root",
 "Tests use a few recorded proofs.",
 ["crates/subnetworks/state/src/validation/trie.rs","crates/subnetworks/state/src/validation/validator.rs"],
 [("proof walk","crates/subnetworks/state/src/validation/trie.rs"),("dispatch","crates/subnetworks/state/src/validation/validator.rs")],["validation result"])
p("V05","Historical summaries used for validation are those of the right period",
 "For every slot the summary used to judge a header is the one of that slot's period, taken from what is known or fetched when missing, and a slot that precedes the first period or has no known summary is an error, never another period's summary.",
 ["inputs","histories"],"every slot around period boundaries and every state of the known list",
 "Tests cover one slot.",
 ["crates/validation/src/historical_summaries_provider.rs"],[("index and cache","crates/validation/src/historical_summaries_provider.rs")],["summary returned per slot"])
p("V06","Beacon content is accepted only when consistent with its key and the chain",
 "Once the node follows the chain, a beacon network item is accepted exactly when it can be read, matches every field of its key (block root, first period and count, slot or epoch), is of the current fork where that is asked for, is not past the age limit, and agrees with the finalized header and the committees the node knows. Before that, what cannot be checked yet is not held against an item, but length, slot, epoch, fork and age still are; no bytes whatever stop the node.",
 ["inputs","configurations"],"every item kind, key field and relation between item, key and known header",
 "Tests use one recorded item per fork.",
 ["crates/subnetworks/beacon/src/validation.rs"],[("validator","crates/subnetworks/beacon/src/validation.rs")],["validation result"])
CE="bin/portal-bridge/src/census/"
p("V08","Headers, bodies and proofs made from beacon blocks are theirs and are accepted",
 "From a beacon block of any fork and the block roots of its period exactly the header and the body of its execution block are made, with the fields of that fork, together with a proof of the fork's kind that leads from the block hash through the beacon block to the trusted root and that the network accepts. For a header from before the merge the proof made from its epoch is accepted in the same way, also when the epoch is not full. From a block whose hash or transactions contradict it nothing is made.",
 ["inputs"],"blocks of every fork at every kind of place in a period, with all counts of transactions, withdrawals and requests; early headers at the borders of full and partial epochs",
 "Tests rebuild a few recorded proofs per fork from files that are not part of the stable tests.",
 ["crates/ethportal-api/src/types/execution/builders/block.rs","crates/ethportal-api/src/types/execution/builders/header.rs","crates/ethportal-api/src/types/execution/header_with_proof.rs","crates/ethportal-api/src/types/consensus/beacon_block.rs","crates/ethportal-api/src/types/consensus/body.rs","crates/ethportal-api/src/types/consensus/execution_payload.rs","crates/ethportal-api/src/types/consensus/beacon_state.rs","crates/validation/src/accumulator.rs"],
 [("blocks","crates/ethportal-api/src/types/execution/builders/block.rs: ExecutionBlockBuilder::build"),("early headers","crates/validation/src/accumulator.rs: construct_proof")],["headers, bodies and proofs made"])
p("V09","A walk over a state trie yields each selected node once, with its proof",
 "A walk over a trie yields exactly the selected nodes, each once, with its path and the nodes from the root to it: all of them, those at hand whose way from the root is at hand, or those whose path overlaps the chosen one of equal slices (and the root). All slices together cover the trie. Keys and values made of them name and prove that node, and a walk over the whole that lacks the root is refused.",
 ["inputs"],"tries with long common prefixes, parts of them missing, slices of even and odd number whose edges fall on and beside nodes",
 "The tests walk one complete trie of eighteen keys; the one about a part needs the network.",
 ["bin/trin-execution/src/trie_walker/mod.rs","bin/trin-execution/src/trie_walker/filter.rs","bin/trin-execution/src/content.rs","bin/trin-execution/src/utils.rs"],
 [("walk","bin/trin-execution/src/trie_walker/mod.rs: TrieWalker::next"),("slices","bin/trin-execution/src/trie_walker/filter.rs: Filter::contains"),("content","bin/trin-execution/src/content.rs: create_account_content_key")],["nodes of the walk","content keys and values"])
p("C01","Every known peer keeps being checked until it is dropped for good reason",
 "Every peer the census knows is checked again and again, whatever it answered and whatever happens in other networks; it is dropped exactly when the ten latest checks of it failed, where an answer of an unexpected kind or a newer record that cannot be fetched is a failure. A dropped peer is forgotten completely until it is found again. A newer record of a peer replaces an older one and never the other way round.",
 ["histories","schedules","fault_sequences"],"every sequence of discoveries, successful and failed checks and record updates over any set of peers",
 "No test drives the peer set through failures and rediscoveries.",
 [CE+"peers.rs",CE+"peer.rs",CE+"network.rs"],[("peer set and queue",CE+"peers.rs"),("failure counting",CE+"peer.rs"),("check outcome",CE+"network.rs: liveness_check")],["peers and due checks after each step"])
p("C02","Content is offered only to interested peers, favouring reliable ones",
 "The peers chosen for a content item are distinct, known, at most the limit, and only ones whose last told radius covers it. Successes never lower and failures never raise how much a peer weighs, reliable peers are chosen more often, and one that keeps failing and never accepts anything is not chosen at all. No peer that could be chosen is left out while the limit is not reached.",
 ["histories","inputs"],"every history of successes and failures and every content distance",
 "Tests cover a single peer and single events.",
 [CE+"scoring.rs",CE+"peers.rs",CE+"peer.rs"],[("weights",CE+"scoring.rs"),("selection",CE+"peers.rs: select_peers")],["selected peers","weights"])
p("C03","A requested block range is split into epochs without gaps or overlaps",
 "The pieces produced for a block range cover exactly the blocks of the range, each block once, each piece inside a single epoch; whole epochs are marked as whole. Every range whose start is not past its end is accepted without failure, and a malformed request is refused with an error.",
 ["inputs"],"every start and end around epoch boundaries and at the extremes of the number range",
 "Tests list five ranges.",
 ["bin/portal-bridge/src/types/range.rs","bin/portal-bridge/src/types/mode.rs"],[("parsing","bin/portal-bridge/src/types/mode.rs: ModeType::from_str"),("split","bin/portal-bridge/src/types/range.rs: block_range_to_epochs")],["returned map"])
p("C04","The head bridge offers whole, matching chains and proven headers of a period",
 "An attested head is offered only as a complete chain of it and its twelve ancestors: first the headers in order to each chosen peer, two seconds after the last answer the body and the receipts that belong to each of them; while a part has not been obtained nothing is offered, and a head is never offered before it is attested. When a period is finalised every known ancestor of its checkpoint is offered once, with a valid proof, under its hash and under its number. No more offers are under way at once than configured, silent peers are given up, and the census learns once how each offer of a single item ended.",
 ["histories","faults","interleavings"],"trees of competing blocks around the end of a period, heads that move between branches, nodes that lag or fail, peers that decline, fail or stay silent",
 "No test runs this bridge.",
 ["bin/portal-bridge/src/bridge/ephemeral_history/mod.rs","bin/portal-bridge/src/bridge/ephemeral_history/gossiper.rs","bin/portal-bridge/src/bridge/ephemeral_history/ephemeral_bundle.rs"],
 [("announcements","bin/portal-bridge/src/bridge/ephemeral_history/mod.rs: EphemeralHistoryBridge::launch"),("offers","bin/portal-bridge/src/bridge/ephemeral_history/gossiper.rs: gossip_ephemeral_bundle")],["offers on the network","reports to the census"])
p("C05","The beacon bridge offers each new item once, also when sources fail at times",
 "In every slot the bridge offers the newest optimistic update, and once each: a finality update that finalises a later slot, the update of the present period if its finalised header lies in that period, the historical summaries of a new finalised state, and, two slots after it was seen, the bootstrap of a new finalised block. Each goes under its own key and with the value the node gave, once to each peer chosen for it, and the census learns once how each offer ended. A source that fails or has nothing yet is asked again in the following slots and holds up none of the others.",
 ["histories","faults"],"histories of a node that moves on slot by slot while any of its answers fail, and of peers that decline, fail or stay silent",
 "No test runs this bridge.",
 ["bin/portal-bridge/src/bridge/beacon.rs"],
 [("slots","bin/portal-bridge/src/bridge/beacon.rs: BeaconBridge::launch"),("offers","bin/portal-bridge/src/bridge/beacon.rs: spawn_offer_tasks")],["offers on the network","reports to the census"])
p("C06","The archive bridge offers exactly the sound blocks of its range, headers first",
 "Of every block of the requested range (without an end: up to the last archive) whose body and receipts belong to its header, and whose proof, if it can be checked, is valid, the header under its hash, the header under its number, the body and the receipts are offered once to each peer chosen for them, and nothing else. The header under its number waits until the offers of the header under its hash have ended, body and receipts for two seconds more. No more offers are under way at once than configured, silent peers are given up, the census learns once how each offer ended, and the bridge ends only when all of them have.",
 ["inputs","faults","interleavings"],"archives whose blocks lie around the ends of the files, ranges beginning and ending there, blocks with parts of others or false proofs, every mixture of answers and limits",
 "Tests check the splitting of a range and the reading of its text only.",
 ["bin/portal-bridge/src/bridge/e2hs.rs","bin/portal-bridge/src/types/range.rs"],
 [("range","bin/portal-bridge/src/bridge/e2hs.rs: E2HSBridge::launch"),("offers","bin/portal-bridge/src/bridge/e2hs.rs: Gossiper::gossip_block")],["offers on the network","reports to the census"])
p("E01","Archive files read back what was written; damaged ones are refused",
 "Reading an archive returns exactly the entries written to it, in order, with types and contents intact, through both the in-memory and the streaming reader. From a file that is cut off or altered at any byte the readers return exactly the entries whose framing is intact, the in-memory one only if that is the whole file, and otherwise an error, never a crash.",
 ["inputs","crash_points","fault_sequences"],"every list of entries and every cut point of the resulting file",
 "Tests round-trip a few entries and never cut a file.",
 ["crates/e2store/src/e2store/types.rs","crates/e2store/src/e2store/memory.rs","crates/e2store/src/e2store/stream.rs"],
 [("entry coding","crates/e2store/src/e2store/types.rs"),("readers","crates/e2store/src/e2store/memory.rs, stream.rs")],["entries read"])
p("E02","Block archives and state snapshots return what was put in, in order",
 "A history archive can be finished, written and read only with exactly its fixed number of blocks, its index leads to the start of every block, and reading it as a whole or block by block returns the blocks in order. A state snapshot takes an account only when no storage is due and storage only while it is due, and returns exactly what it took; it never overwrites an existing one.",
 ["histories","inputs"],"every number of blocks around the fixed one and every order of accounts and storage entries",
 "Tests read ready-made files and write one account.",
 ["crates/e2store/src/e2hs.rs","crates/e2store/src/era1.rs","crates/e2store/src/e2ss.rs"],
 [("history archive","crates/e2store/src/e2hs.rs"),("older format","crates/e2store/src/era1.rs"),("snapshot","crates/e2store/src/e2ss.rs")],["blocks and entries read"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P))
