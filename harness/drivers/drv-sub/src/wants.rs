//! What the storages of the networks say they want.
use crate::trie::stray;
use alloy::primitives::{keccak256, U256};
use common::*;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        content_key::{legacy_history::*, state::*},
        content_value::state::*,
        distance::Distance,
        network::Subnetwork,
        state_trie::{nibbles::Nibbles, ByteCode, EncodedTrieNode, TrieProof},
    },
    LegacyHistoryContentKey, OverlayContentKey, StateContentKey,
};
use serde_json::{json, Value};
use ssz::Encode;
use std::{collections::HashMap, path::Path};
use trin_legacy_history::storage::LegacyHistoryStorage;
use trin_state::storage::StateStorage;
use trin_storage::{config::StorageCapacityConfig, ContentStore, PortalStorageConfig, PortalStorageConfigFactory, ShouldWeStoreContent};

const ME: [u8; 32] = [0x3c; 32];

fn away(id: [u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| id[i] ^ ME[i])
}
fn config(dir: &Path, net: Subnetwork, cap: u64, max: [u8; 32]) -> PortalStorageConfig {
    let c = PortalStorageConfigFactory::new(
        StorageCapacityConfig::Combined { total_mb: 1, subnetworks: vec![net] },
        NodeId::from(ME),
        dir.to_path_buf(),
    )
    .expect("driver: configuration");
    let mut c = c.create(&net, Distance::from(U256::from_be_bytes(max))).expect("driver: configuration");
    c.storage_capacity_bytes = cap;
    c
}
fn filled(i: u64, n: usize) -> Vec<u8> {
    (0..n).map(|j| (j as u64 * 7 + i * 13) as u8).collect()
}

trait Network {
    type Store: ContentStore<Key = Self::Key>;
    type Key: OverlayContentKey + Clone + PartialEq;
    const NET: Subnetwork;
    fn key(i: u64) -> Self::Key;
    fn value(i: u64, size: usize) -> Vec<u8>;
    fn open(c: PortalStorageConfig) -> Self::Store;
    /// What is served for a value.
    fn served(i: u64, value: &[u8]) -> Vec<u8>;
    fn page(s: &Self::Store, offset: u64, limit: u64) -> (Vec<Self::Key>, u64);
}
struct History;
impl Network for History {
    type Store = LegacyHistoryStorage;
    type Key = LegacyHistoryContentKey;
    const NET: Subnetwork = Subnetwork::LegacyHistory;
    fn key(i: u64) -> Self::Key {
        let block_hash = stray(i).0;
        match i % 4 {
            0 => LegacyHistoryContentKey::BlockHeaderByHash(BlockHeaderByHashKey { block_hash }),
            1 => LegacyHistoryContentKey::BlockBody(BlockBodyKey { block_hash }),
            2 => LegacyHistoryContentKey::BlockReceipts(BlockReceiptsKey { block_hash }),
            _ => LegacyHistoryContentKey::BlockHeaderByNumber(BlockHeaderByNumberKey { block_number: i * 1000 }),
        }
    }
    fn value(i: u64, size: usize) -> Vec<u8> {
        filled(i, size)
    }
    fn open(c: PortalStorageConfig) -> Self::Store {
        LegacyHistoryStorage::new(c).expect("the store opens")
    }
    fn served(_: u64, value: &[u8]) -> Vec<u8> {
        value.to_vec()
    }
    fn page(s: &Self::Store, offset: u64, limit: u64) -> (Vec<Self::Key>, u64) {
        let p = s.paginate(offset, limit).expect("listing works");
        (p.content_keys, p.total_entries)
    }
}
struct State;
impl State {
    /// The size of a node is part of its key.
    fn node(i: u64) -> Vec<u8> {
        filled(i, [1, 60, 150, 333, 500, 900][i as usize / 3 % 6])
    }
}
impl Network for State {
    type Store = StateStorage;
    type Key = StateContentKey;
    const NET: Subnetwork = Subnetwork::State;
    fn key(i: u64) -> Self::Key {
        let (path, node_hash) = (Nibbles::try_from_unpacked_nibbles(&[1, (i % 16) as u8]).expect("driver: path"), keccak256(Self::node(i)));
        let address_hash = stray(i);
        match i % 3 {
            0 => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash }),
            1 => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash, path, node_hash }),
            _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash, code_hash: node_hash }),
        }
    }
    fn value(i: u64, _size: usize) -> Vec<u8> {
        let node = Self::node(i);
        let block_hash = stray(5);
        let proof = |n: Vec<u8>| TrieProof::from(vec![EncodedTrieNode::from(n)]);
        match i % 3 {
            0 => AccountTrieNodeWithProof { proof: proof(node), block_hash }.as_ssz_bytes(),
            1 => ContractStorageTrieNodeWithProof { storage_proof: proof(node), account_proof: proof(vec![1]), block_hash }.as_ssz_bytes(),
            _ => ContractBytecodeWithProof { code: ByteCode::from(node), account_proof: proof(vec![1]), block_hash }.as_ssz_bytes(),
        }
    }
    fn open(c: PortalStorageConfig) -> Self::Store {
        StateStorage::new(c).expect("the store opens")
    }
    fn served(i: u64, _: &[u8]) -> Vec<u8> {
        [&[4, 0, 0, 0], &Self::node(i)[..]].concat()
    }
    fn page(s: &Self::Store, offset: u64, limit: u64) -> (Vec<Self::Key>, u64) {
        let p = s.paginate(offset, limit).expect("listing works");
        (p.content_keys, p.total_entries)
    }
}

fn said(s: Result<ShouldWeStoreContent, trin_storage::error::ContentStoreError>) -> &'static str {
    match s {
        Ok(ShouldWeStoreContent::Store) => "store",
        Ok(ShouldWeStoreContent::AlreadyStored) => "have",
        Ok(ShouldWeStoreContent::NotWithinRadius) => "far",
        Err(_) => "error",
    }
}

fn on<N: Network>(id: usize, p: &Value) -> Value {
    let tmp = tempfile::tempdir().expect("driver: directory");
    let cfg = p["cfg"].clone();
    let mut pool: Vec<u64> = (0..int(&cfg, "n") as u64).map(|i| 1 + i + 40 * int(&cfg, "salt") as u64).collect();
    pool.sort_by_key(|&i| away(N::key(i).content_id()));
    let far = |k: usize| away(N::key(pool[k]).content_id());
    let rank = |k: &N::Key| pool.iter().position(|i| N::key(*i) == *k).map_or(0, |i| i + 1);
    let size = int(&cfg, "page") as u64;
    let mut store: Option<N::Store> = None;
    // the values stored first
    let mut put: HashMap<usize, Vec<u8>> = HashMap::new();
    let mut ev = vec![];
    for o in p["ops"].as_array().expect("driver: ops") {
        let mut e = o.clone();
        let op = text(o, "op").to_string();
        e["e"] = json!(op);
        e.as_object_mut().unwrap().remove("op");
        let r = guarded(|| {
            if op == "open" {
                store = None;
                let max = int(o, "max") as usize;
                let max = if max == pool.len() { [0xff; 32] } else if max == 0 { [0; 32] } else { far(max - 1) };
                store = Some(N::open(config(tmp.path(), N::NET, int(o, "cap") as u64, max)));
            } else {
                let i = pool[int(o, "k") as usize - 1];
                let value = N::value(i, int(o, "size") as usize);
                let k = int(o, "k") as usize;
                put.entry(k).or_insert_with(|| N::served(i, &value));
                let r = store.as_mut().expect("driver: open").put(N::key(i), value);
                e["ok"] = json!(r.is_ok());
                let l: Vec<(usize, bool)> = r.unwrap_or_default().iter().map(|(k, v)| (rank(k), put.get(&rank(k)).is_some_and(|x| x[..] == v[..]))).collect();
                e["ret"] = json!(l.iter().map(|x| x.0).collect::<Vec<_>>());
                e["odd"] = json!(l.iter().filter(|x| !x.1).map(|x| x.0).collect::<Vec<_>>());
            }
            let s = store.as_ref().expect("driver: open");
            let radius: [u8; 32] = s.radius().to_be_bytes();
            e["near"] = json!((0..pool.len()).filter(|k| far(*k) <= radius).map(|k| k + 1).collect::<Vec<_>>());
            e["kept"] = json!((0..pool.len()).filter(|k| matches!(s.get(&N::key(pool[*k])), Ok(Some(_)))).map(|k| k + 1).collect::<Vec<_>>());
            let kept = |k: usize| s.get(&N::key(pool[k - 1])).ok().flatten();
            e["other"] = json!((1..=pool.len()).filter(|k| kept(*k).is_some_and(|v| put.get(k).is_none_or(|x| x[..] != v[..]))).collect::<Vec<_>>());
            // what is gone may come back with another value
            put.retain(|k, _| kept(*k).is_some());
            let (mut pages, mut total) = (vec![], vec![]);
            for offset in (0..60).step_by(size as usize) {
                let (l, n) = N::page(s, offset, size);
                total.push(n);
                if l.is_empty() {
                    break;
                }
                pages.extend(l.iter().map(rank));
            }
            e["pages"] = json!(pages);
            e["total"] = json!(total);
            e["want"] = json!(pool.iter().map(|i| said(s.should_we_store(&N::key(*i)))).collect::<Vec<_>>());
            let keys: Vec<N::Key> = pool.iter().map(|i| N::key(*i)).collect();
            e["batch"] = match s.should_we_store_batch(&keys) {
                Ok(l) => json!(l.into_iter().map(|x| said(Ok(x))).collect::<Vec<_>>()),
                Err(_) => json!(vec!["error"; pool.len()]),
            };
        });
        if let Err(m) = r {
            ev.push(panic_event(&op, &m));
            break;
        }
        ev.push(e);
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}
pub fn run(id: usize, p: &Value) -> Value {
    match text(&p["cfg"], "net") {
        "history" => on::<History>(id, p),
        _ => on::<State>(id, p),
    }
}
