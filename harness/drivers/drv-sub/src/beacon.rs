//! The store of the beacon network.
use crate::block_on;
use alloy::primitives::B256;
use common::*;
use ethportal_api::{
    consensus::{
        body::SyncAggregate,
        fork::ForkName,
        header::BeaconBlockHeader,
        historical_summaries::{HistoricalSummaries, HistoricalSummariesWithProof, HistoricalSummary},
    },
    light_client::{bootstrap::*, finality_update::*, header::*, optimistic_update::*, update::*},
    types::{
        content_key::beacon::*,
        content_value::beacon::*,
        distance::Distance,
        network::Subnetwork,
    },
    BeaconContentKey,
};
use discv5::enr::NodeId;
use light_client::consensus::rpc::portal_rpc::expected_current_slot;
use trin_storage::config::StorageCapacityConfig;
use serde_json::{json, Value};
use ssz::{Decode, Encode};
use ssz_types::{BitVector, FixedVector, VariableList};
use std::{collections::HashMap, path::PathBuf};
use tree_hash::TreeHash;
use trin_beacon::storage::BeaconStorage;
use trin_storage::{ContentStore, PortalStorageConfigFactory, ShouldWeStoreContent};
use trin_validation::chain_head::ChainHead;

const CAPELLA: u64 = 6209536;
const PERIOD: u64 = 8192;

/// Model numbers below zero count down from the largest number there is.
pub fn big(n: i64) -> u64 {
    if n >= 0 { n as u64 } else { u64::MAX - (-n - 1) as u64 }
}
pub fn fork(o: &Value) -> ForkName {
    match text(o, "fork") {
        "bellatrix" => ForkName::Bellatrix,
        "capella" => ForkName::Capella,
        "deneb" => ForkName::Deneb,
        _ => ForkName::Electra,
    }
}
fn aggregate(tag: i64) -> SyncAggregate {
    let mut bits = BitVector::new();
    for i in 0..16 {
        bits.set(i, tag >> i & 1 == 1).expect("driver: bit");
    }
    SyncAggregate { sync_committee_bits: bits, sync_committee_signature: Default::default() }
}
pub fn beacon(slot: u64, tag: i64) -> BeaconBlockHeader {
    BeaconBlockHeader { slot, proposer_index: tag as u64, ..Default::default() }
}
fn node<N: ssz_types::typenum::Unsigned>(tag: i64) -> FixedVector<B256, N> {
    let mut v = FixedVector::from_elem(B256::ZERO);
    v[0].0[..8].copy_from_slice(&(tag as u64).to_be_bytes());
    v
}

macro_rules! each_fork {
    ($f:expr, $go:ident) => {
        match $f {
            ForkName::Bellatrix => $go!(Bellatrix, LightClientHeaderBellatrix, LightClientBootstrapBellatrix, LightClientUpdateBellatrix, LightClientFinalityUpdateBellatrix, LightClientOptimisticUpdateBellatrix),
            ForkName::Capella => $go!(Capella, LightClientHeaderCapella, LightClientBootstrapCapella, LightClientUpdateCapella, LightClientFinalityUpdateCapella, LightClientOptimisticUpdateCapella),
            ForkName::Deneb => $go!(Deneb, LightClientHeaderDeneb, LightClientBootstrapDeneb, LightClientUpdateDeneb, LightClientFinalityUpdateDeneb, LightClientOptimisticUpdateDeneb),
            ForkName::Electra => $go!(Electra, LightClientHeaderElectra, LightClientBootstrapElectra, LightClientUpdateElectra, LightClientFinalityUpdateElectra, LightClientOptimisticUpdateElectra),
        }
    };
}

pub(crate) use each_fork;

pub fn bootstrap(f: ForkName, header: BeaconBlockHeader, tag: i64) -> Vec<u8> {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientBootstrap::$k($b {
                header: $h { beacon: header, ..Default::default() },
                current_sync_committee: Default::default(),
                current_sync_committee_branch: node(tag),
            })
        };
    }
    ForkVersionedLightClientBootstrap { fork_name: f, bootstrap: each_fork!(f, go) }.as_ssz_bytes()
}
fn update(f: ForkName, slot: u64, tag: i64) -> ForkVersionedLightClientUpdate {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientUpdate::$k($u {
                attested_header: $h { beacon: beacon(slot, tag), ..Default::default() },
                next_sync_committee: Default::default(),
                next_sync_committee_branch: node(tag),
                finalized_header: $h { beacon: beacon(slot, tag), ..Default::default() },
                finality_branch: node(tag),
                sync_aggregate: aggregate(tag),
                signature_slot: slot + 1,
            })
        };
    }
    ForkVersionedLightClientUpdate { fork_name: f, update: each_fork!(f, go) }
}
fn finality(f: ForkName, slot: u64, tag: i64) -> Vec<u8> {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientFinalityUpdate::$k($fi {
                // the attested slot and the signature slot tell nothing about the finalized one
                attested_header: $h { beacon: beacon(slot + tag as u64 % 3 * 64, tag), ..Default::default() },
                finalized_header: $h { beacon: beacon(slot, tag), ..Default::default() },
                finality_branch: node(tag),
                sync_aggregate: aggregate(tag),
                signature_slot: slot + 1000,
            })
        };
    }
    ForkVersionedLightClientFinalityUpdate { fork_name: f, update: each_fork!(f, go) }.as_ssz_bytes()
}
fn optimistic(f: ForkName, slot: u64, tag: i64) -> Vec<u8> {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientOptimisticUpdate::$k($op {
                attested_header: $h { beacon: beacon(slot.saturating_sub(1 + tag as u64 % 4), tag), ..Default::default() },
                sync_aggregate: aggregate(tag),
                signature_slot: slot,
            })
        };
    }
    ForkVersionedLightClientOptimisticUpdate { fork_name: f, update: each_fork!(f, go) }.as_ssz_bytes()
}
pub fn summary(tag: i64, i: usize) -> HistoricalSummary {
    let mut b = B256::ZERO;
    b.0[0] = tag as u8;
    b.0[1..9].copy_from_slice(&(i as u64).to_be_bytes());
    HistoricalSummary { block_summary_root: b, state_summary_root: b }
}
fn summaries(f: ForkName, known: usize, epoch: u64, tag: i64) -> Vec<u8> {
    let list: Vec<_> = (0..known + epoch as usize).map(|i| summary(tag, i)).collect();
    ForkVersionedHistoricalSummariesWithProof {
        fork_name: f,
        historical_summaries_with_proof: HistoricalSummariesWithProof {
            epoch,
            historical_summaries: HistoricalSummaries::new(list).expect("driver: list"),
            proof: node(tag),
        },
    }
    .as_ssz_bytes()
}

struct World {
    dir: PathBuf,
    slots: Vec<u64>,
    known: usize,
    head: ChainHead,
    store: BeaconStorage,
    names: HashMap<Vec<u8>, Value>,
}
fn open(dir: &PathBuf) -> (ChainHead, BeaconStorage) {
    let f = PortalStorageConfigFactory::new(
        StorageCapacityConfig::Combined { total_mb: 100, subnetworks: vec![Subnetwork::Beacon] },
        NodeId::from([0x5a; 32]),
        dir.clone(),
    )
    .expect("driver: configuration");
    let head = ChainHead::new_pectra_defaults();
    let c = f.create(&Subnetwork::Beacon, Distance::MAX).expect("driver: configuration");
    let store = BeaconStorage::new(c, head.clone()).expect("the store opens");
    (head, store)
}
fn known(h: &ChainHead) -> usize {
    let mut n = 0;
    while h.historical_summary(CAPELLA + n as u64 * PERIOD).is_some() {
        n += 1;
    }
    n
}
impl World {
    fn header(&self, id: i64) -> BeaconBlockHeader {
        match self.slots.get((id - 1) as usize) {
            Some(&s) => beacon(s, id),
            None => beacon(7, id),
        }
    }
    fn key(&self, o: &Value) -> BeaconContentKey {
        match text(o, "kind") {
            "boot" => BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: self.header(int(o, "key")).tree_hash_root().0 }),
            "range" => BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: big(int(o, "key")), count: big(int(o, "count")) }),
            "fin" => BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: big(int(o, "key")) }),
            "opt" => BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: big(int(o, "key")) }),
            _ => BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: big(int(o, "key")) }),
        }
    }
    fn value(&mut self, o: &Value) -> Vec<u8> {
        let (f, tag) = (fork(o), int(o, "tag"));
        let name = |w: &mut Self, b: &Vec<u8>, n: Value| {
            w.names.insert(b.clone(), n);
        };
        let mut v = match text(o, "kind") {
            "boot" => {
                let v = bootstrap(f, self.header(int(o, "val")), tag);
                name(self, &v, json!([int(o, "val"), tag]));
                v
            }
            "range" => {
                let us: Vec<_> = (0..int(o, "val")).map(|i| update(f, (100 + tag + i) as u64, tag + i)).collect();
                for (i, u) in us.iter().enumerate() {
                    name(self, &u.as_ssz_bytes(), json!([0, tag + i as i64]));
                }
                LightClientUpdatesByRange(VariableList::new(us).expect("driver: list")).as_ssz_bytes()
            }
            k => {
                let at = int(o, "val");
                let v = match k {
                    "fin" => finality(f, at as u64, tag),
                    "opt" => optimistic(f, at as u64, tag),
                    _ => summaries(f, self.known, at as u64, tag),
                };
                name(self, &v, json!([at, tag]));
                v
            }
        };
        match text(o, "fault") {
            "cut" => v.truncate(v.len() / 2),
            "fork" => if let Some(b) = v.get_mut(if text(o, "kind") == "range" { 4 } else { 0 }) { *b ^= 0x55 },
            "empty" => v.clear(),
            _ => {}
        }
        v
    }
    /// What is served for a key: whether anything, and its parts.
    fn got(&self, k: &BeaconContentKey) -> (bool, Vec<Value>, bool) {
        let unknown = || json!([-1, -1]);
        match self.store.get(k) {
            Err(_) => (false, vec![], true),
            Ok(None) => (false, vec![], false),
            Ok(Some(v)) => {
                let v = v.to_vec();
                let parts = match k {
                    BeaconContentKey::LightClientUpdatesByRange(_) => match LightClientUpdatesByRange::from_ssz_bytes(&v) {
                        Ok(l) => l.0.iter().map(|u| self.names.get(&u.as_ssz_bytes()).cloned().unwrap_or_else(unknown)).collect(),
                        Err(_) => vec![unknown()],
                    },
                    _ => vec![self.names.get(&v).cloned().unwrap_or_else(unknown)],
                };
                (true, parts, false)
            }
        }
    }
    fn single(&self, o: Value) -> Vec<i64> {
        let (_, parts, _) = self.got(&self.key(&o));
        parts.first().map(|p| p.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
    }
    fn view(&self) -> Value {
        let boot: Vec<_> = (1..=self.slots.len() as i64)
            .map(|i| match self.single(json!({"kind": "boot", "key": i}))[..] {
                [] => 0,
                [id, tag] if id == i => tag,
                _ => -1,
            })
            .collect();
        let upd: Vec<_> = (0..12)
            .map(|p| match self.single(json!({"kind": "range", "key": p, "count": 1}))[..] {
                [] => 0,
                [_, tag] => tag,
                _ => -1,
            })
            .collect();
        let of = |k: &str| self.single(json!({"kind": k, "key": 0}));
        json!({"boot": boot, "upd": upd, "fin": of("fin"), "opt": of("opt"), "sum": of("sum")})
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let tmp = tempfile::tempdir().expect("driver: directory");
    let now = expected_current_slot();
    let slots = p["cfg"]["ages"].as_array().expect("driver: ages").iter().map(|a| now - a.as_u64().unwrap()).collect();
    let dir = tmp.path().to_path_buf();
    let mut ev = vec![];
    let (head, store) = open(&dir);
    let mut w = World { dir, slots, known: known(&head), head, store, names: HashMap::new() };
    for o in p["ops"].as_array().expect("driver: ops") {
        let mut e = o.clone();
        let op = text(o, "op").to_string();
        e["e"] = json!(op);
        e.as_object_mut().unwrap().remove("op");
        let r = guarded(|| match op.as_str() {
            "put" => {
                let k = w.key(o);
                let v = w.value(o);
                e["ok"] = json!(w.store.put(k, &v).is_ok());
                e["view"] = w.view();
            }
            "get" => {
                let (got, parts, err) = w.got(&w.key(o));
                e["got"] = json!(got);
                e["err"] = json!(err);
                e["parts"] = json!(parts);
            }
            "want" => {
                e["out"] = json!(match w.store.should_we_store(&w.key(o)) {
                    Ok(ShouldWeStoreContent::Store) => "store",
                    Ok(ShouldWeStoreContent::AlreadyStored) => "stored",
                    Ok(_) => "far",
                    Err(_) => "error",
                })
            }
            "latest" => {
                let root = w.store.lookup_latest_block_root().ok().flatten();
                e["out"] = json!(match root {
                    None => 0,
                    Some(r) => (1..=w.slots.len() as i64).find(|&i| w.header(i).tree_hash_root() == r).unwrap_or(-1),
                })
            }
            "prune" => {
                block_on(async {
                    w.store.spawn_pruning_task();
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                    }
                    tokio::time::sleep(std::time::Duration::from_millis(2)).await;
                });
                e["view"] = w.view();
            }
            _ => {
                (w.head, w.store) = open(&w.dir);
                e["head"] = json!(known(&w.head) - w.known);
                e["view"] = w.view();
            }
        });
        if let Err(m) = r {
            ev.push(panic_event(&op, &m));
            break;
        }
        ev.push(e);
    }
    json!({"id": id, "cfg": p["cfg"], "ev": ev})
}
