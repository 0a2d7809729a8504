//! Runs programs on the bridge that offers what the beacon chain has to say.  The node it reads from,
//! the census and the network it offers to are a script, time is virtual.
extern crate feed_world as ethereum_rpc_client;
extern crate feed_world as trin_beacon;
mod bridge {
    #[path = "/repo/bin/portal-bridge/src/bridge/beacon.rs"]
    pub mod beacon;
    #[path = "/repo/bin/portal-bridge/src/bridge/constants.rs"]
    pub mod constants;
    #[path = "/repo/bin/portal-bridge/src/bridge/offer_report.rs"]
    pub mod offer_report;
}
mod types {
    #[path = "/repo/bin/portal-bridge/src/types/mode.rs"]
    pub mod mode;
}
mod utils {
    /// Slots begin four seconds before an update.
    pub fn duration_until_next_update() -> std::time::Duration {
        std::time::Duration::from_secs(4)
    }
}
mod census {
    use crate::Shared;
    use discv5::enr::NodeId;
    use ethportal_api::{
        types::{accept_code::AcceptCode, network::Subnetwork, portal_wire::OfferTrace},
        OverlayContentKey,
    };
    use peer::PeerInfo;
    use std::time::Duration;
    pub mod peer {
        use ethportal_api::{types::client_type::ClientType, Enr};
        #[derive(Clone, Debug)]
        pub struct PeerInfo {
            pub enr: Enr,
            pub client_type: ClientType,
        }
    }
    #[derive(Debug)]
    pub struct CensusError;
    #[derive(Clone)]
    pub struct Census(pub Shared);
    impl Census {
        pub fn select_peers(&self, n: Subnetwork, _: &impl OverlayContentKey) -> Result<Vec<PeerInfo>, CensusError> {
            let w = self.0.lock();
            let peers: Vec<_> = crate::ints(&w.op["cp"])
                .iter()
                .map(|&p| PeerInfo { enr: crate::record(p), client_type: ethportal_api::types::client_type::ClientType::Trin })
                .collect();
            (n == Subnetwork::Beacon && !peers.is_empty()).then_some(peers).ok_or(CensusError)
        }
        pub fn record_offer_result(&self, n: Subnetwork, node_id: NodeId, _: usize, _: Duration, trace: &OfferTrace) {
            let out = match trace {
                _ if n != Subnetwork::Beacon => "other",
                OfferTrace::Success(AcceptCode::Accepted) => "ok",
                OfferTrace::Success(_) => "declined",
                OfferTrace::Failed => "failed",
            };
            self.0.lock().told.push((crate::who(&node_id), out));
        }
    }
}

use alloy::primitives::{keccak256, B256};
use bridge::beacon::BeaconBridge;
use common::*;
use discv5::enr::{CombinedKey, NodeId};
use ethportal_api::{
    consensus::{
        body::SyncAggregate,
        header::BeaconBlockHeader,
        historical_summaries::{HistoricalSummaries, HistoricalSummariesWithProof, HistoricalSummary},
        pubkey::PubKey,
        sync_committee::SyncCommittee,
    },
    light_client::{bootstrap::*, finality_update::*, header::*, optimistic_update::*, update::*},
    types::{
        accept_code::AcceptCode,
        consensus::fork::ForkName,
        content_value::beacon::{ForkVersionedHistoricalSummariesWithProof, LightClientUpdatesByRange},
        network_spec::network_spec,
    },
    BeaconContentKey, BeaconContentValue, ContentValue, Enr, OverlayContentKey, RawContentKey,
};
use feed_world::{
    consensus::{BeaconState, ConsensusApi},
    network::{Answer, BeaconNetwork},
    Script,
};
use serde_json::{json, Value};
use ssz_types::{FixedVector, VariableList};
use std::{
    sync::{Arc, Mutex, MutexGuard},
    time::Duration,
};
use types::mode::BridgeMode;

const PEERS: i64 = 3;

fn id(p: i64) -> NodeId {
    let mut b = [0u8; 32];
    b[0] = (p * 37) as u8;
    b[31] = p as u8;
    NodeId::new(&b)
}
fn record(p: i64) -> Enr {
    let mut raw = id(p).raw();
    let key = CombinedKey::secp256k1_from_bytes(&mut raw).expect("driver: key");
    Enr::builder().seq(1).ip4("10.0.0.1".parse().unwrap()).udp4(9000 + p as u16).build(&key).expect("driver: record")
}
fn who(n: &NodeId) -> i64 {
    (1..=PEERS).find(|&p| id(p) == *n).unwrap_or(0)
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default()
}

// What the node knows, made of numbers.
fn root(kind: u8, n: i64) -> B256 {
    keccak256([kind, n as u8])
}
fn head(slot: u64, n: i64) -> LightClientHeaderElectra {
    LightClientHeaderElectra { beacon: BeaconBlockHeader { slot, proposer_index: n as u64, ..Default::default() }, ..Default::default() }
}
fn committee() -> SyncCommittee {
    let key = PubKey { inner: FixedVector::from(vec![7u8; 48]) };
    SyncCommittee { pubkeys: FixedVector::from(vec![key.clone(); 512]), aggregate_pubkey: key }
}
fn aggregate() -> SyncAggregate {
    SyncAggregate { sync_committee_bits: Default::default(), sync_committee_signature: Default::default() }
}
fn branch<N: ssz_types::typenum::Unsigned>() -> FixedVector<B256, N> {
    FixedVector::from(vec![B256::repeat_byte(3); N::to_usize()])
}
fn bootstrap(n: i64) -> LightClientBootstrapElectra {
    LightClientBootstrapElectra { header: head(32 * n as u64, n), current_sync_committee: committee(), current_sync_committee_branch: branch() }
}
fn finality(n: i64) -> LightClientFinalityUpdateElectra {
    LightClientFinalityUpdateElectra {
        attested_header: head(n as u64 + 70, n),
        finalized_header: head(n as u64, n),
        finality_branch: branch(),
        sync_aggregate: aggregate(),
        signature_slot: n as u64 + 71,
    }
}
fn optimistic(n: i64) -> LightClientOptimisticUpdateElectra {
    LightClientOptimisticUpdateElectra { attested_header: head(n as u64 - 1, n), sync_aggregate: aggregate(), signature_slot: n as u64 }
}
fn period() -> u64 {
    network_spec().current_slot() / 8192
}
/// Of the present period, or finalized in an earlier or a later one.
fn update(rel: i64) -> LightClientUpdateElectra {
    let slot = |rel: i64| (period() as i64 + rel) as u64 * 8192;
    LightClientUpdateElectra {
        attested_header: head(slot(0) + 600, rel),
        next_sync_committee: committee(),
        next_sync_committee_branch: branch(),
        finalized_header: head(if rel < 0 { slot(0) - 1 } else if rel > 0 { slot(1) } else { slot(0) }, rel),
        finality_branch: branch(),
        sync_aggregate: aggregate(),
        signature_slot: slot(0) + 601,
    }
}
fn state(n: i64) -> BeaconState {
    let one = HistoricalSummary { block_summary_root: root(5, n), state_summary_root: root(6, n) };
    BeaconState {
        slot: 64 * n as u64 + [0, 31, 5][n as usize % 3],
        historical_summaries: HistoricalSummaries::new(vec![one; n as usize]).expect("driver: summaries"),
        proof: FixedVector::from(vec![root(7, n); 6]),
    }
}

pub struct World {
    op: Value,
    offers: Vec<(i64, Vec<u8>, Vec<u8>)>,
    told: Vec<(i64, &'static str)>,
}
#[derive(Clone)]
pub struct Shared(Arc<Mutex<World>>);
impl Shared {
    fn lock(&self) -> MutexGuard<'_, World> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn now(&self, what: &str) -> Option<i64> {
        Some(int(&self.lock().op, what)).filter(|&n| n > 0)
    }
}
impl Script for Shared {
    fn block_root(&self) -> Option<B256> {
        self.now("froot").map(|n| root(1, n))
    }
    fn bootstrap(&self, r: B256) -> Option<LightClientBootstrapElectra> {
        let n = (1..40).find(|&n| root(1, n) == r)?;
        (int(&self.lock().op, "boots") == 1).then(|| bootstrap(n))
    }
    fn updates(&self, p: u64, count: u64) -> Option<Vec<LightClientUpdateElectra>> {
        let w = self.lock();
        match text(&w.op, "upd") {
            _ if p != period() || count < 1 => None,
            "now" => Some(vec![update(0)]),
            "before" => Some(vec![update(-1)]),
            "after" => Some(vec![update(1)]),
            "empty" => Some(vec![]),
            _ => None,
        }
    }
    fn optimistic(&self) -> Option<LightClientOptimisticUpdateElectra> {
        self.now("opt").map(optimistic)
    }
    fn finality(&self) -> Option<LightClientFinalityUpdateElectra> {
        self.now("fin").map(finality)
    }
    fn state_root(&self) -> Option<B256> {
        self.now("sroot").map(|n| root(2, n))
    }
    fn state(&self) -> Option<BeaconState> {
        self.now("sroot").filter(|_| int(&self.lock().op, "states") == 1).map(state)
    }
    fn begin(&self, enr: &Enr, key: Vec<u8>, value: Vec<u8>) -> Answer {
        let mut w = self.lock();
        let peer = who(&enr.node_id());
        w.offers.push((peer, key, value));
        match w.op["ans"].get(peer as usize - 1).and_then(|s| s.as_str()) {
            Some("ok") => Answer::Code(AcceptCode::Accepted),
            Some("declined") => Answer::Code(AcceptCode::AlreadyStored),
            Some("failed") => Answer::Failed,
            Some("error") => Answer::Error,
            _ => Answer::Silence,
        }
    }
}

/// What kind of item this is, its number, and whether the value is what the node has under that number.
fn item(key: &[u8], value: &[u8]) -> (&'static str, i64, bool) {
    use BeaconContentKey as K;
    use BeaconContentValue as V;
    let Ok(key) = K::try_from_bytes(&RawContentKey::from(key.to_vec())) else { return ("other", 0, false) };
    let (kind, n, want) = match key {
        K::LightClientBootstrap(k) => {
            let n = (1..40).find(|&n| root(1, n).0 == k.block_hash).unwrap_or(0);
            ("boot", n, V::LightClientBootstrap(bootstrap(n).into()))
        }
        K::LightClientUpdatesByRange(k) => {
            let n = k.start_period as i64 - period() as i64;
            ("update", if k.count == 1 { n } else { -9 }, V::LightClientUpdatesByRange(LightClientUpdatesByRange(VariableList::from(vec![update(0).into()]))))
        }
        K::LightClientFinalityUpdate(k) => ("finality", k.finalized_slot as i64, V::LightClientFinalityUpdate(finality(k.finalized_slot as i64).into())),
        K::LightClientOptimisticUpdate(k) => ("optimistic", k.signature_slot as i64, V::LightClientOptimisticUpdate(optimistic(k.signature_slot as i64).into())),
        K::HistoricalSummariesWithProof(k) => {
            let n = (1..40).find(|&n| state(n).slot / 32 == k.epoch).unwrap_or(0);
            let s = state(n);
            let all = HistoricalSummariesWithProof { epoch: k.epoch, historical_summaries: s.historical_summaries, proof: s.proof };
            ("summaries", n, V::HistoricalSummariesWithProof(ForkVersionedHistoricalSummariesWithProof { fork_name: ForkName::Electra, historical_summaries_with_proof: all }))
        }
    };
    (kind, n, want.encode().to_vec() == value)
}

async fn play(program: &[Value]) -> Vec<Value> {
    let world = Shared(Arc::new(Mutex::new(World { op: Value::Null, offers: vec![], told: vec![] })));
    let shared: feed_world::World = Arc::new(world.clone());
    let bridge = BeaconBridge::new(ConsensusApi(shared.clone()), BridgeMode::Latest, Arc::new(BeaconNetwork::new(shared)), census::Census(world.clone()));
    let task = tokio::spawn(async move { bridge.launch().await });
    let mut log = vec![];
    for op in program {
        let last = text(op, "op") == "end";
        if last {
            task.abort();
        }
        {
            let mut w = world.lock();
            w.op = op.clone();
            w.offers.clear();
        }
        tokio::time::sleep(Duration::from_secs(if last { 1200 } else { 12 })).await;
        if !last && task.is_finished() {
            log.push(panic_event("launch", "the bridge has ended"));
            break;
        }
        let w = world.lock();
        let offers: Vec<Value> = w.offers.iter().map(|(p, k, v)| (p, item(k, v))).map(|(p, (kind, n, ok))| json!({"p": p, "kind": kind, "n": n, "ok": ok})).collect();
        let mut e = op.clone();
        e["e"] = op["op"].clone();
        e["offers"] = json!(offers);
        let mut told = json!({});
        for p in 1..=PEERS {
            for out in ["ok", "declined", "failed", "other"] {
                told[format!("{out}{p}")] = json!(w.told.iter().filter(|t| **t == (p, out)).count());
            }
        }
        e["told"] = told;
        log.push(e);
    }
    task.abort();
    log
}

fn main() {
    run(|i, p| {
        let program = p["ops"].as_array().expect("program").clone();
        let r = guarded(|| {
            tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime").block_on(play(&program))
        });
        let ev = r.unwrap_or_else(|m| vec![panic_event("program", &m)]);
        vec![json!({"id": i, "cfg": {}, "ev": ev})]
    });
}
