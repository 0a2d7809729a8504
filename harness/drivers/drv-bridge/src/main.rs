//! Runs programs on the bridge that follows the head of the chain.  The nodes it reads from, the
//! census and the network it offers to are a script, time is virtual.
extern crate bridge_world as ethereum_rpc_client;
extern crate bridge_world as trin_legacy_history;
mod bridge {
    #[path = "/repo/bin/portal-bridge/src/bridge/constants.rs"]
    pub mod constants;
    #[path = "/repo/bin/portal-bridge/src/bridge/ephemeral_history/mod.rs"]
    pub mod ephemeral_history;
}
mod census {
    use crate::{Answers, Shared};
    use discv5::enr::NodeId;
    use ethportal_api::{
        types::{network::Subnetwork, portal_wire::OfferTrace},
        OverlayContentKey,
    };
    use peer::PeerInfo;
    use std::time::Duration;
    pub mod peer {
        use ethportal_api::{types::client_type::ClientType, Enr};
        #[derive(Clone)]
        pub struct PeerInfo {
            pub enr: Enr,
            pub client_type: ClientType,
        }
    }
    #[derive(Debug)]
    pub struct CensusError;
    #[derive(Clone)]
    pub struct Census(pub Shared);
    impl Census {
        fn named(&self, pick: impl Fn(&Answers) -> Vec<i64>) -> Result<Vec<PeerInfo>, CensusError> {
            let w = self.0.lock();
            let peers: Vec<_> = pick(&w.now)
                .iter()
                .map(|&p| PeerInfo { enr: crate::record(p), client_type: ethportal_api::types::client_type::ClientType::Trin })
                .collect();
            (!peers.is_empty()).then_some(peers).ok_or(CensusError)
        }
        pub fn select_peers(&self, _: Subnetwork, _: &impl OverlayContentKey) -> Result<Vec<PeerInfo>, CensusError> {
            self.named(|n| n.cp.clone())
        }
        pub fn select_random_peers(&self, _: Subnetwork) -> Result<Vec<PeerInfo>, CensusError> {
            self.named(|n| n.rp.clone())
        }
        pub fn record_offer_result(&self, _: Subnetwork, node_id: NodeId, _: usize, _: Duration, trace: &OfferTrace) {
            let out = match trace {
                OfferTrace::Success(ethportal_api::types::accept_code::AcceptCode::Accepted) => "ok",
                OfferTrace::Success(_) => "declined",
                OfferTrace::Failed => "failed",
            };
            *self.0.lock().told.entry((crate::who(&node_id), out)).or_default() += 1;
        }
    }
}

use alloy::{
    consensus::{Header, ReceiptEnvelope, TxEnvelope},
    eips::{eip4895::Withdrawal as Paid, Decodable2718},
    primitives::{keccak256, Address, B256},
    rpc::types::beacon::events::*,
};
use bridge::ephemeral_history::EphemeralHistoryBridge;
use bridge_world::{
    consensus::{event::BeaconEvent, ConsensusApi},
    execution::ExecutionApi,
    network::{Answer, LegacyHistoryNetwork},
    Script,
};
use common::*;
use discv5::enr::{CombinedKey, NodeId};
use ethportal_api::{
    consensus::{
        beacon_block::BeaconBlockElectra,
        beacon_state::HistoricalBatch,
        body::{BeaconBlockBodyElectra, Eth1Data, SyncAggregate},
        execution_payload::{ExecutionPayloadElectra, Withdrawal},
        execution_requests::ExecutionRequests,
        historical_summaries::{HistoricalSummaries, HistoricalSummary},
    },
    types::{
        accept_code::AcceptCode,
        execution::{block_body::BlockBody, ephermeral_header::EphemeralHeaderOffer, header_with_proof::HeaderWithProof},
    },
    ContentValue, Enr, LegacyHistoryContentKey, LegacyHistoryContentValue, OverlayContentKey, RawContentKey, Receipts,
};
use serde_json::{json, Value};
use ssz::Decode;
use ssz_types::{FixedVector, VariableList};
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex, MutexGuard},
    time::Duration,
};
use tokio::{sync::mpsc, time::Instant};
use tree_hash::TreeHash;
use trin_validation::header_validator::HeaderValidator;

/// The first slot of the second period with summaries; programs count from a hundred slots before.
const BOUNDARY: u64 = 759 * 8192;
const PEERS: i64 = 4;

fn id(p: i64) -> NodeId {
    let mut b = [0u8; 32];
    b[0] = (p * 37) as u8;
    b[31] = p as u8;
    NodeId::new(&b)
}
fn record(p: i64) -> Enr {
    let mut raw = id(p).raw();
    let key = CombinedKey::secp256k1_from_bytes(&mut raw).expect("driver: key");
    Enr::builder().seq(1).ip4("10.0.0.1".parse().unwrap()).udp4(9000 + p as u16).build(&key).expect("driver: record")
}
fn who(n: &NodeId) -> i64 {
    (1..=PEERS).find(|&p| id(p) == *n).unwrap_or(0)
}
fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = vec![192 + body.len() as u8];
    o.extend(body);
    o
}
fn fields(n: usize, salt: u8) -> Vec<u8> {
    list(&(0..n).map(|i| if i % 3 == 2 { vec![130, salt + 128, 200 + i as u8] } else { vec![salt + i as u8] }).collect::<Vec<_>>())
}

/// A block and all that belongs to it.
struct Block {
    beacon: BeaconBlockElectra,
    root: B256,
    hash: B256,
    header: Header,
    parent: i64,
    slot: u64,
    receipts: Receipts,
    body: Vec<u8>,
    raw_receipts: Vec<u8>,
    offer: Vec<u8>,
}
fn block(i: i64, parent: i64, slot: u64, number: u64, above: Option<&Block>) -> Block {
    let raw: Vec<Vec<u8>> = if i % 3 == 0 { vec![] } else { vec![fields(9, i as u8)] };
    let transactions: Vec<TxEnvelope> = raw.iter().map(|r| TxEnvelope::decode_2718(&mut &r[..]).expect("driver: transaction")).collect();
    let receipts = Receipts(vec![ReceiptEnvelope::decode_2718(&mut &fields(4, i as u8)[..]).expect("driver: receipt")]);
    let paid = Withdrawal { index: i as u64, validator_index: 7, address: Address::repeat_byte(i as u8), amount: 3 };
    let withdrawals: Vec<Paid> = vec![Paid::from(&paid)];
    let parent_root = above.map_or(B256::repeat_byte(9), |b| b.root);
    let requests = ExecutionRequests::default();
    let mut payload = ExecutionPayloadElectra {
        parent_hash: above.map_or(B256::repeat_byte(8), |b| b.hash),
        receipts_root: receipts.root(),
        block_number: number,
        gas_limit: 30_000_000,
        gas_used: i as u64,
        timestamp: 1_800_000_000 + slot % 10_000 * 12,
        transactions: VariableList::from(raw.iter().map(|r| VariableList::from(r.clone())).collect::<Vec<_>>()),
        withdrawals: VariableList::from(vec![paid]),
        ..Default::default()
    };
    let header = Header {
        parent_hash: payload.parent_hash,
        transactions_root: alloy::consensus::proofs::calculate_transaction_root(&transactions),
        receipts_root: payload.receipts_root,
        number,
        gas_limit: payload.gas_limit,
        gas_used: payload.gas_used,
        timestamp: payload.timestamp,
        base_fee_per_gas: Some(0),
        withdrawals_root: Some(alloy::consensus::proofs::calculate_withdrawals_root(&withdrawals)),
        blob_gas_used: Some(0),
        excess_blob_gas: Some(0),
        parent_beacon_block_root: Some(parent_root),
        requests_hash: Some(requests.requests_hash()),
        beneficiary: Address::ZERO,
        state_root: B256::ZERO,
        ..Default::default()
    };
    let hash = header.hash_slow();
    payload.block_hash = hash;
    let beacon = BeaconBlockElectra {
        slot,
        proposer_index: i as u64,
        parent_root,
        state_root: keccak256([i as u8, 1]),
        body: BeaconBlockBodyElectra {
            randao_reveal: Default::default(),
            eth1_data: Eth1Data::default(),
            graffiti: B256::ZERO,
            proposer_slashings: Default::default(),
            attester_slashings: Default::default(),
            attestations: Default::default(),
            deposits: Default::default(),
            voluntary_exits: Default::default(),
            sync_aggregate: SyncAggregate { sync_committee_bits: Default::default(), sync_committee_signature: Default::default() },
            execution_payload: payload,
            bls_to_execution_changes: Default::default(),
            blob_kzg_commitments: Default::default(),
            execution_requests: requests,
        },
    };
    let body = BlockBody(alloy::consensus::BlockBody {
        transactions,
        ommers: vec![],
        withdrawals: Some(alloy::eips::eip4895::Withdrawals::new(withdrawals)),
    });
    Block {
        root: beacon.tree_hash_root(),
        hash,
        parent,
        slot,
        body: LegacyHistoryContentValue::BlockBody(body).encode().to_vec(),
        raw_receipts: LegacyHistoryContentValue::Receipts(receipts.clone()).encode().to_vec(),
        offer: LegacyHistoryContentValue::EphemeralHeaderOffer(EphemeralHeaderOffer { header: header.clone() }).encode().to_vec(),
        receipts,
        header,
        beacon,
    }
}

/// How everybody behaves at present.
#[derive(Default, Clone)]
pub struct Answers {
    rp: Vec<i64>,
    cp: Vec<i64>,
    answers: Vec<String>,
    miss: Vec<i64>,
    view: i64,
}
struct Offer {
    peer: i64,
    items: Vec<(Vec<u8>, Vec<u8>)>,
    single: bool,
    late: bool,
    begin: u128,
    end: Option<u128>,
}
pub struct World {
    blocks: BTreeMap<i64, Block>,
    now: Answers,
    offers: Vec<Offer>,
    told: BTreeMap<(i64, &'static str), i64>,
    given: Vec<i64>,
    most: [usize; 2],
    start: Instant,
    events: Option<mpsc::UnboundedReceiver<BeaconEvent>>,
}
#[derive(Clone)]
pub struct Shared(Arc<Mutex<World>>);
impl Shared {
    fn lock(&self) -> MutexGuard<'_, World> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl World {
    fn chain(&self, mut b: i64) -> Vec<i64> {
        let mut o = vec![];
        while let Some(x) = self.blocks.get(&b) {
            o.push(b);
            b = x.parent;
        }
        o
    }
    fn state(&self, c: i64) -> HistoricalBatch {
        let mut roots = vec![B256::ZERO; 8192];
        let chain = self.chain(c);
        for s in BOUNDARY - 100..BOUNDARY {
            if let Some(b) = chain.iter().find(|b| self.blocks[b].slot <= s) {
                roots[(s % 8192) as usize] = self.blocks[b].root;
            }
        }
        HistoricalBatch {
            block_roots: FixedVector::new(roots).expect("driver: roots"),
            state_roots: FixedVector::new(vec![B256::ZERO; 8192]).expect("driver: roots"),
        }
    }
    fn find(&self, f: impl Fn(&Block) -> bool) -> i64 {
        self.blocks.iter().find(|(_, b)| f(b)).map_or(0, |(i, _)| *i)
    }
    /// What kind of item this is, which block it belongs to, and whether it is what its key says.
    fn item(&self, key: &[u8], value: &[u8], proofs: Option<&HeaderValidator>) -> (&'static str, i64, bool) {
        use LegacyHistoryContentKey as K;
        let Ok(key) = K::try_from_bytes(&RawContentKey::from(key.to_vec())) else { return ("other", 0, false) };
        let simple = |kind, hash: [u8; 32], want: fn(&Block) -> &Vec<u8>| {
            let b = self.find(|b| b.hash.0 == hash);
            (kind, b, self.blocks.get(&b).is_some_and(|b| want(b) == value))
        };
        let proven = |kind, by: &dyn Fn(&Header) -> bool| {
            let Ok(h) = HeaderWithProof::from_ssz_bytes(value) else { return (kind, 0, false) };
            let b = self.find(|b| b.header == h.header);
            let valid = proofs.is_some_and(|v| futures::executor::block_on(tokio::task::unconstrained(v.validate_header_with_proof(&h))).is_ok());
            (kind, b, by(&h.header) && valid)
        };
        match key {
            K::EphemeralHeaderOffer(k) => simple("header", k.block_hash, |b| &b.offer),
            K::BlockBody(k) => simple("body", k.block_hash, |b| &b.body),
            K::BlockReceipts(k) => simple("receipts", k.block_hash, |b| &b.raw_receipts),
            K::BlockHeaderByHash(k) => proven("hash", &|h| h.hash_slow().0 == k.block_hash),
            K::BlockHeaderByNumber(k) => proven("number", &|h| h.number == k.block_number),
            _ => ("other", 0, false),
        }
    }
}
impl Script for Shared {
    fn block(&self, root: &str) -> Option<BeaconBlockElectra> {
        let mut w = self.lock();
        let b = w.find(|b| b.root.to_string() == root);
        if b == 0 || w.now.miss.contains(&b) {
            return None;
        }
        w.given.push(b);
        Some(w.blocks[&b].beacon.clone())
    }
    fn state(&self, root: &str) -> Option<HistoricalBatch> {
        let w = self.lock();
        let c = w.find(|b| b.beacon.state_root.to_string() == root);
        (c != 0).then(|| w.state(c))
    }
    fn receipts(&self, number: u64) -> Option<Receipts> {
        let w = self.lock();
        w.chain(w.now.view).iter().map(|b| &w.blocks[b]).find(|b| b.header.number == number).map(|b| b.receipts.clone())
    }
    fn events(&self) -> Option<mpsc::UnboundedReceiver<BeaconEvent>> {
        self.lock().events.take()
    }
    fn begin(&self, enr: &Enr, items: Vec<(Vec<u8>, Vec<u8>)>, single: bool) -> (usize, Answer) {
        let mut w = self.lock();
        let peer = who(&enr.node_id());
        let (n, begin) = (w.offers.len(), w.start.elapsed().as_millis());
        let ms = (keccak256(n.to_be_bytes()).0[0] % 40) as u64;
        // headers with proofs have a limit of their own
        let late = items.iter().any(|(k, _)| matches!(k.first(), Some(0 | 3)));
        w.offers.push(Offer { peer, items, single, late, begin, end: None });
        let open = w.offers.iter().filter(|o| o.end.is_none() && o.late == late).count();
        w.most[late as usize] = w.most[late as usize].max(open);
        let answer = match w.now.answers.get(peer as usize - 1).map(|s| s.as_str()) {
            Some("ok") => Answer::Code(AcceptCode::Accepted, ms),
            Some("declined") => Answer::Code(AcceptCode::AlreadyStored, ms),
            Some("failed") => Answer::Failed(ms),
            Some("error") => Answer::Error(ms),
            _ => Answer::Silence,
        };
        (n, answer)
    }
    fn end(&self, offer: usize) {
        let mut w = self.lock();
        let t = w.start.elapsed().as_millis();
        if let Some(o) = w.offers.get_mut(offer) {
            o.end.get_or_insert(t);
        }
    }
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default()
}

async fn play(program: &[Value]) -> (Value, Vec<Value>) {
    let cfg = program[0]["c"].clone();
    let (par, slot) = (ints(&cfg["par"]), ints(&cfg["slot"]));
    let mut blocks: BTreeMap<i64, Block> = BTreeMap::new();
    for i in 1..=par.len() {
        let (p, s) = (par[i - 1], BOUNDARY - 100 + slot[i - 1] as u64);
        let above = blocks.get(&p);
        let b = block(i as i64, p, s, above.map_or(1000, |a| a.header.number + 1), above);
        blocks.insert(i as i64, b);
    }
    let (tx, rx) = mpsc::unbounded_channel();
    let world = Shared(Arc::new(Mutex::new(World {
        blocks,
        now: Answers::default(),
        offers: vec![],
        told: BTreeMap::new(),
        given: vec![],
        most: [0, 0],
        start: Instant::now(),
        events: Some(rx),
    })));
    let shared: bridge_world::World = Arc::new(world.clone());
    let bridge = EphemeralHistoryBridge::new(
        Arc::new(LegacyHistoryNetwork::new(shared.clone())),
        int(&cfg, "hl") as usize,
        int(&cfg, "nl") as usize,
        ConsensusApi(shared.clone()),
        ExecutionApi(shared.clone()),
        census::Census(world.clone()),
    )
    .await
    .expect("driver: bridge");
    let task = tokio::spawn(bridge.launch());
    let mut log = vec![];
    for op in &program[1..] {
        let b = int(op, "b");
        let event = {
            let mut w = world.lock();
            w.now = Answers {
                rp: ints(&op["rp"]),
                cp: ints(&op["cp"]),
                answers: op["ans"].as_array().map(|a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect()).unwrap_or_default(),
                miss: ints(&op["miss"]),
                view: int(op, "view"),
            };
            w.offers.clear();
            w.told.clear();
            w.given.clear();
            w.most = [0, 0];
            let x = &w.blocks[&b];
            match text(op, "op") {
                "head" => BeaconEvent::Head(HeadEvent {
                    slot: x.slot,
                    block: x.root,
                    state: x.beacon.state_root,
                    epoch_transition: false,
                    previous_duty_dependent_root: B256::ZERO,
                    current_duty_dependent_root: B256::ZERO,
                    execution_optimistic: false,
                }),
                "update" => BeaconEvent::LightClientOptimisticUpdate(LightClientOptimisticUpdateEvent {
                    version: "electra".into(),
                    data: LightClientOptimisticUpdateData {
                        attested_header: AttestedHeader {
                            beacon: BeaconHeader {
                                slot: x.slot,
                                proposer_index: x.beacon.proposer_index,
                                parent_root: x.beacon.parent_root,
                                state_root: x.beacon.state_root,
                                body_root: x.beacon.body.tree_hash_root(),
                            },
                        },
                        signature_slot: x.slot + 1,
                    },
                }),
                _ => BeaconEvent::FinalizedCheckpoint(FinalizedCheckpointEvent {
                    block: x.root,
                    state: x.beacon.state_root,
                    epoch: (BOUNDARY / 32).wrapping_add_signed(int(op, "epoch") - 5),
                    execution_optimistic: false,
                }),
            }
        };
        let _ = tx.send(event);
        tokio::time::sleep(Duration::from_secs(40_000)).await;
        if task.is_finished() {
            log.push(panic_event("launch", "the bridge has ended"));
            break;
        }
        let w = world.lock();
        let proofs = (text(op, "op") == "final").then(|| {
            HeaderValidator::new_with_historical_summaries(
                HistoricalSummaries::new(vec![HistoricalSummary {
                    block_summary_root: w.state(b).block_roots.tree_hash_root(),
                    state_summary_root: B256::ZERO,
                }])
                .expect("driver: summaries"),
            )
        });
        let (mut series, mut offers) = (vec![], vec![]);
        let (mut over, mut first) = (None, None);
        for o in &w.offers {
            let items: Vec<Value> = o
                .items
                .iter()
                .map(|(k, v)| w.item(k, v, proofs.as_ref()))
                .map(|(kind, id, ok)| json!({"kind": kind, "id": id, "ok": ok}))
                .collect();
            if o.items.len() == 1 && o.single {
                first = Some(first.unwrap_or(o.begin).min(o.begin));
                offers.push(json!({"p": o.peer, "x": items[0]}));
            } else {
                over = Some(over.unwrap_or(0).max(o.end.unwrap_or(u128::MAX >> 80)));
                series.push(json!({"p": o.peer, "x": items}));
            }
        }
        let gap = match (over, first) {
            (Some(a), Some(b)) => b as i64 - a as i64,
            _ => 2000,
        };
        let told: Vec<Value> = w.told.iter().map(|((p, out), n)| json!({"p": p, "out": out, "n": n})).collect();
        let mut e = op.clone();
        e["e"] = op["op"].clone();
        e["given"] = json!(w.given);
        e["series"] = json!(series);
        e["offers"] = json!(offers);
        e["gap"] = json!(gap.clamp(-1_000_000, 1_000_000));
        e["told"] = json!(told);
        e["hm"] = json!(w.most[0]);
        e["nm"] = json!(w.most[1]);
        e["open"] = json!(w.offers.iter().filter(|o| o.end.is_none()).count());
        log.push(e);
    }
    task.abort();
    (cfg, log)
}

fn main() {
    run(|i, p| {
        let program = p["ops"].as_array().expect("program").clone();
        let r = guarded(|| {
            tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime").block_on(play(&program))
        });
        let (cfg, ev) = match r {
            Ok(x) => x,
            Err(m) => (program[0]["c"].clone(), vec![panic_event("program", &m)]),
        };
        vec![json!({"id": i, "cfg": cfg, "ev": ev})]
    });
}
