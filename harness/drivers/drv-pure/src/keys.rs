//! Content keys of every network, encoded and decoded.
use alloy::primitives::B256;
use ethportal_api::{
    types::{
        content_key::{
            beacon::{
                HistoricalSummariesWithProofKey, LightClientBootstrapKey, LightClientFinalityUpdateKey,
                LightClientOptimisticUpdateKey, LightClientUpdatesByRangeKey,
            },
            state::{AccountTrieNodeKey, ContractBytecodeKey, ContractStorageTrieNodeKey},
        },
        state_trie::nibbles::Nibbles,
    },
    BeaconContentKey, HistoryContentKey, LegacyHistoryContentKey, OverlayContentKey, StateContentKey,
};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

pub fn bytes(v: &Value) -> Vec<u8> {
    crate::ints(v).into_iter().map(|x| x as u8).collect()
}
fn hash(v: &Value) -> [u8; 32] {
    bytes(v).try_into().expect("driver: hash")
}
fn number(v: &Value) -> u64 {
    u64::from_le_bytes(bytes(v).try_into().expect("driver: number"))
}
fn path(v: &Value) -> Nibbles {
    Nibbles::try_from_unpacked_nibbles(&bytes(v)).expect("driver: path")
}
fn le(n: u64) -> Value {
    json!(n.to_le_bytes())
}

trait Key: OverlayContentKey + PartialEq + serde::Serialize + serde::de::DeserializeOwned {
    fn make(sel: i64, f: &Value) -> Self;
    fn show(&self) -> Value;
}

impl Key for LegacyHistoryContentKey {
    fn make(sel: i64, f: &Value) -> Self {
        match sel {
            0 => Self::new_block_header_by_hash(hash(&f[0])),
            1 => Self::new_block_body(hash(&f[0])),
            2 => Self::new_block_receipts(hash(&f[0])),
            3 => Self::new_block_header_by_number(number(&f[0])),
            4 => Self::new_ephemeral_headers_find_content(hash(&f[0]), bytes(&f[1])[0]),
            5 => Self::new_ephemeral_header_offer(hash(&f[0])),
            _ => panic!("driver: type"),
        }
    }
    fn show(&self) -> Value {
        match self {
            Self::BlockHeaderByHash(k) => json!({"sel": 0, "f": [k.block_hash]}),
            Self::BlockBody(k) => json!({"sel": 1, "f": [k.block_hash]}),
            Self::BlockReceipts(k) => json!({"sel": 2, "f": [k.block_hash]}),
            Self::BlockHeaderByNumber(k) => json!({"sel": 3, "f": [le(k.block_number)]}),
            Self::EphemeralHeadersFindContent(k) => json!({"sel": 4, "f": [&k.block_hash[..], &[k.ancestor_count][..]]}),
            Self::EphemeralHeaderOffer(k) => json!({"sel": 5, "f": [k.block_hash]}),
        }
    }
}
impl Key for HistoryContentKey {
    fn make(sel: i64, f: &Value) -> Self {
        match sel {
            0 => Self::new_block_body(number(&f[0])),
            1 => Self::new_block_receipts(number(&f[0])),
            _ => panic!("driver: type"),
        }
    }
    fn show(&self) -> Value {
        match self {
            Self::BlockBody(k) => json!({"sel": 0, "f": [le(k.block_number)]}),
            Self::BlockReceipts(k) => json!({"sel": 1, "f": [le(k.block_number)]}),
        }
    }
}
impl Key for BeaconContentKey {
    fn make(sel: i64, f: &Value) -> Self {
        match sel {
            16 => Self::LightClientBootstrap(LightClientBootstrapKey { block_hash: hash(&f[0]) }),
            17 => Self::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: number(&f[0]), count: number(&f[1]) }),
            18 => Self::LightClientFinalityUpdate(LightClientFinalityUpdateKey { finalized_slot: number(&f[0]) }),
            19 => Self::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey { signature_slot: number(&f[0]) }),
            20 => Self::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: number(&f[0]) }),
            _ => panic!("driver: type"),
        }
    }
    fn show(&self) -> Value {
        match self {
            Self::LightClientBootstrap(k) => json!({"sel": 16, "f": [k.block_hash]}),
            Self::LightClientUpdatesByRange(k) => json!({"sel": 17, "f": [le(k.start_period), le(k.count)]}),
            Self::LightClientFinalityUpdate(k) => json!({"sel": 18, "f": [le(k.finalized_slot)]}),
            Self::LightClientOptimisticUpdate(k) => json!({"sel": 19, "f": [le(k.signature_slot)]}),
            Self::HistoricalSummariesWithProof(k) => json!({"sel": 20, "f": [le(k.epoch)]}),
        }
    }
}
impl Key for StateContentKey {
    fn make(sel: i64, f: &Value) -> Self {
        match sel {
            32 => Self::AccountTrieNode(AccountTrieNodeKey { path: path(&f[0]), node_hash: B256::from(hash(&f[1])) }),
            33 => Self::ContractStorageTrieNode(ContractStorageTrieNodeKey {
                address_hash: B256::from(hash(&f[0])),
                path: path(&f[1]),
                node_hash: B256::from(hash(&f[2])),
            }),
            34 => Self::ContractBytecode(ContractBytecodeKey { address_hash: B256::from(hash(&f[0])), code_hash: B256::from(hash(&f[1])) }),
            _ => panic!("driver: type"),
        }
    }
    fn show(&self) -> Value {
        match self {
            Self::AccountTrieNode(k) => json!({"sel": 32, "f": [k.path.nibbles(), k.node_hash.as_slice()]}),
            Self::ContractStorageTrieNode(k) => {
                json!({"sel": 33, "f": [k.address_hash.as_slice(), k.path.nibbles(), k.node_hash.as_slice()]})
            }
            Self::ContractBytecode(k) => json!({"sel": 34, "f": [k.address_hash.as_slice(), k.code_hash.as_slice()]}),
        }
    }
}

fn one<K: Key>(o: &Value) -> Value {
    let net = &o["net"];
    if o["op"] == "key" {
        let k = K::make(o["sel"].as_i64().expect("driver: type"), &o["f"]);
        let raw = k.to_bytes().to_vec();
        let back = |r: Option<K>| r.is_some_and(|b: K| b == k && b.show()["sel"] == o["sel"] && b.show()["f"] == o["f"]);
        let hex = k.to_hex();
        let plain = format!("0x{}", raw.iter().map(|b| format!("{b:02x}")).collect::<String>());
        json!({"e": "key", "net": net, "sel": o["sel"], "f": o["f"], "raw": raw,
               "back": back(K::try_from_bytes(&raw).ok()),
               "hex": hex == plain && json!(k) == json!(plain) && back(K::try_from_hex(&hex).ok()) && back(serde_json::from_value(json!(plain)).ok()),
               "id": k.content_id(), "sha": k.content_id()[..] == Sha256::digest(&raw)[..],
               "radius": k.affected_by_radius()})
    } else {
        let raw = bytes(&o["raw"]);
        let (res, again) = match K::try_from_bytes(&raw) {
            Ok(k) => (vec![k.show()], k.to_bytes().to_vec()),
            Err(_) => (vec![], vec![]),
        };
        json!({"e": "rawkey", "net": net, "raw": raw, "res": res, "again": again})
    }
}

pub fn call(o: &Value) -> Value {
    match o["net"].as_str().expect("driver: net") {
        "headers" => one::<LegacyHistoryContentKey>(o),
        "blocks" => one::<HistoryContentKey>(o),
        "beacon" => one::<BeaconContentKey>(o),
        "state" => one::<StateContentKey>(o),
        n => panic!("driver: unknown network {n}"),
    }
}
