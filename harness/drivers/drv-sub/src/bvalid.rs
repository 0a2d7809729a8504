//! The validator of the beacon network.
use crate::{
    beacon::{beacon, bootstrap, each_fork, fork, summary},
    block_on,
    light::{filler, hash, Forge, Made},
};
use alloy::primitives::B256;
use common::*;
use ethportal_api::{
    consensus::{
        fork::ForkName,
        header::BeaconBlockHeader,
        historical_summaries::{HistoricalSummaries, HistoricalSummariesWithProof},
    },
    light_client::{bootstrap::*, finality_update::*, header::*, optimistic_update::*, store::LightClientStore, update::*},
    types::{
        content_key::beacon::*,
        content_value::beacon::*,
        jsonrpc::{endpoints::BeaconEndpoint, request::BeaconJsonRpcRequest},
    },
    BeaconContentKey,
};
use light_client::{config::networks, consensus::rpc::portal_rpc::expected_current_slot};
use serde_json::{json, Value};
use ssz::Encode;
use ssz_types::{FixedVector, VariableList};
use std::{collections::HashMap, sync::Arc};
use tree_hash::TreeHash;
use trin_beacon::validation::BeaconValidator;
use trin_validation::{oracle::HeaderOracle, validator::{ValidationResult, Validator}};

const PERIOD: u64 = 8192;

fn head<'a, H>(b: BeaconBlockHeader, f: impl FnOnce(BeaconBlockHeader) -> H) -> H {
    f(b)
}
/// Branches of earlier forks are one shorter.
fn branch<N: ssz_types::typenum::Unsigned>(b: &[B256]) -> FixedVector<B256, N> {
    FixedVector::from(b.iter().take(N::to_usize()).cloned().collect::<Vec<_>>())
}
fn range_item(f: ForkName, m: Made) -> ForkVersionedLightClientUpdate {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientUpdate::$k($u {
                attested_header: head(m.att.beacon, |beacon| $h { beacon, ..Default::default() }),
                next_sync_committee: m.next,
                next_sync_committee_branch: branch(&m.next_branch),
                finalized_header: head(m.fin.beacon, |beacon| $h { beacon, ..Default::default() }),
                finality_branch: branch(&m.fin_branch),
                sync_aggregate: m.agg,
                signature_slot: m.sig,
            })
        };
    }
    ForkVersionedLightClientUpdate { fork_name: f, update: each_fork!(f, go) }
}
fn finality(f: ForkName, m: Made) -> Vec<u8> {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientFinalityUpdate::$k($fi {
                attested_header: head(m.att.beacon, |beacon| $h { beacon, ..Default::default() }),
                finalized_header: head(m.fin.beacon, |beacon| $h { beacon, ..Default::default() }),
                finality_branch: branch(&m.fin_branch),
                sync_aggregate: m.agg,
                signature_slot: m.sig,
            })
        };
    }
    ForkVersionedLightClientFinalityUpdate { fork_name: f, update: each_fork!(f, go) }.as_ssz_bytes()
}
fn optimistic(f: ForkName, m: Made) -> Vec<u8> {
    macro_rules! go {
        ($k:ident, $h:ident, $b:ident, $u:ident, $fi:ident, $op:ident) => {
            LightClientOptimisticUpdate::$k($op {
                attested_header: head(m.att.beacon, |beacon| $h { beacon, ..Default::default() }),
                sync_aggregate: m.agg,
                signature_slot: m.sig,
            })
        };
    }
    ForkVersionedLightClientOptimisticUpdate { fork_name: f, update: each_fork!(f, go) }.as_ssz_bytes()
}

/// Summaries with a proof, and the state root it leads to.
fn summaries(o: &Value) -> (Vec<u8>, B256) {
    let list = HistoricalSummaries::new((0..int(o, "len") as usize).map(|i| summary(1, i)).collect::<Vec<_>>()).expect("driver: list");
    let mut row: Vec<B256> = (0..64).map(filler).collect();
    let place = match text(o, "fault") { "place" => 26, "place2" => 59, _ => 27 };
    row[place] = list.tree_hash_root();
    let (mut i, mut proof) = (place, vec![]);
    while row.len() > 1 {
        proof.push(row[i ^ 1]);
        i /= 2;
        row = row.chunks(2).map(|c| hash(c[0], c[1])).collect();
    }
    let mut list = list;
    match text(o, "fault") {
        "proof" => proof[int(o, "len") as usize % 6].0[3] ^= 1,
        "item" => list = HistoricalSummaries::new((0..int(o, "len") as usize).map(|i| summary(2, i)).collect::<Vec<_>>()).expect("driver: list"),
        "longer" => list = HistoricalSummaries::new((0..int(o, "len") as usize + 1).map(|i| summary(1, i)).collect::<Vec<_>>()).expect("driver: list"),
        _ => {}
    }
    let v = ForkVersionedHistoricalSummariesWithProof {
        fork_name: fork(o),
        historical_summaries_with_proof: HistoricalSummariesWithProof {
            epoch: int(o, "at") as u64,
            historical_summaries: list,
            proof: FixedVector::from(proof),
        },
    };
    (v.as_ssz_bytes(), if text(o, "fault") == "root" { filler(7) } else { row[0] })
}

/// What the node knows of the chain.
#[derive(Default)]
struct Known {
    header: Option<BeaconBlockHeader>,
    root: Option<B256>,
    store: Option<LightClientStore>,
}

fn judge(known: Known, key: &BeaconContentKey, value: &[u8]) -> &'static str {
    block_on(async {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
        let serving = tokio::spawn(async move {
            while let Some(r) = rx.recv().await {
                let a = match r.endpoint {
                    BeaconEndpoint::FinalizedHeader => known.header.as_ref().map(|h| json!(h)),
                    BeaconEndpoint::FinalizedStateRoot => known.root.as_ref().map(|h| json!(h)),
                    BeaconEndpoint::LightClientStore => known.store.as_ref().map(|h| json!(h)),
                    _ => None,
                };
                let _ = r.resp.send(a.ok_or("not known yet".to_string()));
            }
        });
        let oracle = HeaderOracle { beacon_jsonrpc_tx: Some(tx), ..Default::default() };
        let v = BeaconValidator::new(Arc::new(tokio::sync::RwLock::new(oracle)));
        let r = v.validate_content(key, value).await;
        serving.abort();
        match r {
            ValidationResult::CanonicallyValid => "canonical",
            ValidationResult::Valid => "valid",
            ValidationResult::Invalid(_) => "invalid",
        }
    })
}

pub fn run(id: usize, p: &Value) -> Value {
    let cfg = &p["cfg"];
    let now = expected_current_slot();
    let mut forge = Forge { first: (now / PERIOD - 4) * PERIOD, coms: HashMap::new(), heads: HashMap::new(), genesis: networks::mainnet().chain.genesis_root };
    let first_period = forge.first / PERIOD;
    let store = LightClientStore {
        finalized_header: forge.header(int(cfg, "slot"), 0, filler(5)),
        current_sync_committee: forge.com(int(cfg, "cur")).0,
        next_sync_committee: (int(cfg, "next") > 0).then(|| forge.com(int(cfg, "next")).0),
        ..Default::default()
    };
    let mut ev = vec![];
    for o in p["ops"].as_array().expect("driver: ops") {
        let before = expected_current_slot();
        let known = o["known"] == true;
        let mut k = Known { store: known.then(|| store.clone()), ..Default::default() };
        let (key, mut value) = match text(o, "kind") {
            "boot" => {
                let h = beacon((before as i64 - int(o, "age")) as u64, int(o, "tag"));
                let other = beacon(h.slot, int(o, "tag") + 1);
                k.header = known.then(|| if text(o, "head") == "same" { h.clone() } else { other.clone() });
                let named = if text(o, "key") == "own" { &h } else { &other };
                (
                    BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: named.tree_hash_root().0 }),
                    bootstrap(fork(o), h.clone(), int(o, "tag")),
                )
            }
            "range" => {
                let us: Vec<_> = o["us"].as_array().expect("driver: updates").iter().map(|u| range_item(fork(u), forge.make(u))).collect();
                let start = (first_period as i64 + int(o, "start")) as u64;
                (
                    BeaconContentKey::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: start, count: int(o, "count") as u64 }),
                    LightClientUpdatesByRange(VariableList::new(us).expect("driver: list")).as_ssz_bytes(),
                )
            }
            "fin" => {
                let m = forge.make(&o["us"][0]);
                let slot = (forge.first as i64 + int(o, "at")) as u64;
                (BeaconContentKey::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: slot }), finality(fork(&o["us"][0]), m))
            }
            "opt" => {
                let m = forge.make(&o["us"][0]);
                let slot = (forge.first as i64 + int(o, "at")) as u64;
                (BeaconContentKey::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: slot }), optimistic(fork(&o["us"][0]), m))
            }
            _ => {
                let (v, root) = summaries(o);
                k.root = known.then_some(root);
                (BeaconContentKey::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: int(o, "key") as u64 }), v)
            }
        };
        match text(o, "broken") {
            "cut" => value.truncate(value.len() / 2),
            "fork" => {
                let i = if text(o, "kind") == "range" { 4 } else { 0 };
                if let Some(b) = value.get_mut(i) {
                    *b ^= 0x55;
                }
            }
            "empty" => value.clear(),
            "short" => value.truncate(3),
            _ => {}
        }
        let r = guarded(|| judge(k, &key, &value));
        let mut e = o.clone();
        match r {
            Err(m) => {
                ev.push(panic_event(text(o, "kind"), &m));
                break;
            }
            Ok(out) => {
                e["e"] = o["kind"].clone();
                e["out"] = json!(out);
                let after = expected_current_slot();
                e["drift"] = json!(after - before);
                e["now"] = json!([before as i64 - forge.first as i64, after as i64 - forge.first as i64]);
                ev.push(e);
            }
        }
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}
