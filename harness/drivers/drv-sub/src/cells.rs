//! The storage of the state network.
use crate::trie::stray;
use alloy::primitives::{keccak256, U256};
use common::*;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        content_key::state::*,
        content_value::state::*,
        distance::Distance,
        network::Subnetwork,
        state_trie::{nibbles::Nibbles, ByteCode, EncodedTrieNode, TrieProof},
    },
    OverlayContentKey, StateContentKey,
};
use serde_json::{json, Value};
use ssz::Encode;
use std::path::Path;
use trin_state::storage::StateStorage;
use trin_storage::{config::StorageCapacityConfig, ContentStore, PortalStorageConfigFactory, ShouldWeStoreContent};

const ME: [u8; 32] = [0x5a; 32];

struct World<'a> {
    cfg: &'a Value,
    store: StateStorage,
}
fn open(dir: &Path, wide: bool) -> StateStorage {
    let c = PortalStorageConfigFactory::new(
        StorageCapacityConfig::Combined { total_mb: 100, subnetworks: vec![Subnetwork::State] },
        NodeId::from(ME),
        dir.to_path_buf(),
    )
    .expect("driver: configuration");
    let mut half = [0xff; 32];
    half[0] = 0x7f;
    let far = if wide { Distance::MAX } else { Distance::from(U256::from_be_bytes(half)) };
    StateStorage::new(c.create(&Subnetwork::State, far).expect("driver: configuration")).expect("the store opens")
}
impl World<'_> {
    fn kind(&self, i: usize) -> &str {
        self.cfg["kinds"][i - 1].as_str().expect("driver: kind")
    }
    /// The node or code a key commits to.
    fn node(&self, i: usize) -> Vec<u8> {
        let s = self.cfg["same"][i - 1].as_u64().expect("driver: same") as usize;
        let mut n = self.cfg["size"][s - 1].as_u64().expect("driver: size") as usize;
        if self.kind(i) == "code" && n == 1024 {
            n = 32768;
        }
        (0..n).map(|j| (j * 3 + s * 17) as u8).collect()
    }
    fn other(&self, i: usize, j: usize) -> Vec<u8> {
        vec![(i * 16 + j) as u8; [2, 33, 40 + j, 700][(i + j) % 4]]
    }
    fn key(&self, i: usize) -> StateContentKey {
        let node_hash = keccak256(self.node(i));
        let path = Nibbles::try_from_unpacked_nibbles(&vec![i as u8; i]).expect("driver: path");
        let address_hash = stray(i as u64);
        match self.kind(i) {
            "account" => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash }),
            "storage" => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash, path, node_hash }),
            _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash, code_hash: node_hash }),
        }
    }
    fn value(&self, o: &Value) -> Vec<u8> {
        let i = int(o, "key") as usize;
        let (own, len) = (int(o, "own") as usize, int(o, "len") as usize);
        let form = text(o, "form");
        let chain = |own: usize, len: usize| {
            TrieProof::from((1..=len).map(|j| EncodedTrieNode::from(if j == own { self.node(i) } else { self.other(i, j) })).collect::<Vec<_>>())
        };
        let block_hash = stray(77);
        let account = || AccountTrieNodeWithProof { proof: chain(own, len), block_hash }.as_ssz_bytes();
        // the chain to the account ends in something else
        let storage = || ContractStorageTrieNodeWithProof { storage_proof: chain(own, len), account_proof: chain(0, 6 - len), block_hash }.as_ssz_bytes();
        let code = || {
            let c = if own == len && len > 0 { self.node(i) } else { self.other(i, own) };
            ContractBytecodeWithProof { code: ByteCode::from(c), account_proof: chain(0, len.max(1) - 1), block_hash }.as_ssz_bytes()
        };
        let bare = [&[4, 0, 0, 0], &self.node(i)[..]].concat();
        match (form, self.kind(i)) {
            ("proof", "account") | ("kind", "storage") => account(),
            ("proof", "storage") => storage(),
            ("proof", _) | ("kind", "account") => code(),
            ("kind", _) => account(),
            ("bare", _) => bare,
            ("cut", "account") => account()[..35].to_vec(),
            ("cut", "storage") => storage()[..39].to_vec(),
            ("cut", _) => code()[..39].to_vec(),
            ("noise", _) => (0..60u8).map(|x| x.wrapping_mul(73)).collect(),
            _ => vec![],
        }
    }
    fn served(&self, i: usize) -> i64 {
        match self.store.get(&self.key(i)) {
            Ok(None) => 0,
            Ok(Some(v)) if v[..] == [&[4, 0, 0, 0], &self.node(i)[..]].concat()[..] => 1,
            _ => -1,
        }
    }
    fn n(&self) -> usize {
        int(self.cfg, "n") as usize
    }
    fn view(&self) -> Vec<i64> {
        (1..=self.n()).map(|i| self.served(i)).collect()
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let tmp = tempfile::tempdir().expect("driver: directory");
    let wide = p["cfg"]["wide"].as_bool().expect("driver: wide");
    let mut w = World { cfg: &p["cfg"], store: open(tmp.path(), wide) };
    let mut cfg = p["cfg"].clone();
    // the distance is the exclusive or; the half of the ids whose first bit differs is out of reach
    cfg["far"] = json!((1..=w.n()).map(|i| !wide && (w.key(i).content_id()[0] ^ ME[0]) & 0x80 != 0).collect::<Vec<_>>());
    let mut ev = vec![];
    for o in p["ops"].as_array().expect("driver: ops") {
        let mut e = o.clone();
        let op = text(o, "op").to_string();
        e["e"] = json!(op);
        e.as_object_mut().unwrap().remove("op");
        let i = int(o, "key") as usize;
        let r = guarded(|| match op.as_str() {
            "put" => {
                let v = w.value(o);
                e["ok"] = json!(w.store.put(w.key(i), &v).is_ok());
                e["view"] = json!(w.view());
            }
            "get" => e["out"] = json!(w.served(i)),
            "want" => {
                e["out"] = json!(match w.store.should_we_store(&w.key(i)) {
                    Ok(ShouldWeStoreContent::Store) => "store",
                    Ok(ShouldWeStoreContent::AlreadyStored) => "stored",
                    Ok(_) => "far",
                    Err(_) => "error",
                })
            }
            "list" => {
                let l = w.store.paginate(0, 100).expect("listing works");
                let mut keys: Vec<_> = l.content_keys.iter().map(|k| (1..=w.n()).find(|&i| w.key(i) == *k).unwrap_or(0)).collect();
                keys.sort();
                e["keys"] = json!(keys);
                e["total"] = json!(l.total_entries);
            }
            _ => {
                w.store = open(tmp.path(), wide);
                e["view"] = json!(w.view());
            }
        });
        if let Err(m) = r {
            ev.push(panic_event(&op, &m));
            break;
        }
        ev.push(e);
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}
