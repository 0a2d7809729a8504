//! Runs the walk over tries that the state bridge and the snapshots use, and makes state content of
//! what it yields.
extern crate self as revm;
#[path = "/repo/bin/trin-execution/src/content.rs"]
mod content;
#[path = "/repo/bin/trin-execution/src/trie_walker/mod.rs"]
mod trie_walker;
#[path = "/repo/bin/trin-execution/src/utils.rs"]
mod utils;
mod types {
    #[path = "/repo/bin/trin-execution/src/types/trie_proof.rs"]
    pub mod trie_proof;
}
/// The databases of a full node do not occur.
mod storage {
    macro_rules! absent {
        ($module:ident, $name:ident) => {
            pub mod $module {
                pub struct $name;
                impl eth_trie::DB for $name {
                    type Error = eth_trie::TrieError;
                    fn get(&self, _: &[u8]) -> Result<Option<Vec<u8>>, Self::Error> {
                        Ok(None)
                    }
                }
            }
        };
    }
    absent!(account_db, AccountDB);
    absent!(trie_db, TrieRocksDB);
}
pub mod state {
    pub struct Bytecode(pub Vec<u8>);
    impl Bytecode {
        pub fn original_bytes(&self) -> alloy::primitives::Bytes {
            self.0.clone().into()
        }
    }
}

use alloy::primitives::{keccak256, B256};
use common::*;
use eth_trie::{decode_node, node::Node, BuiltTrie};
use ethportal_api::{types::state_trie::nibbles::Nibbles, ContentValue, OverlayContentKey, StateContentKey, StateContentValue};
use hashbrown::HashMap;
use serde_json::{json, Value};
use std::sync::Arc;
use trie_walker::{filter::Filter, TrieWalker};
use trin_state::validation::trie::validate_node_trie_proof;
use types::trie_proof::TrieProof;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as u8).collect()).unwrap_or_default()
}
/// A path of four nibbles, completed to a key.
fn key(short: &[u8]) -> B256 {
    let mut k = B256::ZERO;
    k[0] = short[0] << 4 | short[1];
    k[1] = short[2] << 4 | short[3];
    k
}

struct World {
    root: B256,
    nodes: Vec<(Vec<u8>, Vec<u8>)>,
    keys: Vec<Vec<u8>>,
}
impl World {
    fn encoding(&self, path: &[u8]) -> Option<&Vec<u8>> {
        self.nodes.iter().find(|(p, _)| p == path).map(|(_, e)| e)
    }
    /// Whether what is made of a proof is what it has to be, and is taken by the checks of content.
    fn account(&self, p: &TrieProof) -> anyhow::Result<bool> {
        let (k, v) = (content::create_account_content_key(p)?, content::create_account_content_value(B256::repeat_byte(7), p)?);
        let (k, v) = (StateContentKey::try_from_bytes(&k.to_bytes())?, StateContentValue::decode(&k, &v.encode())?);
        let (StateContentKey::AccountTrieNode(k), StateContentValue::AccountTrieNodeWithProof(v)) = (k, v) else { return Ok(false) };
        Ok(self.fits(p, &k.path, k.node_hash, &v.proof) && v.block_hash == B256::repeat_byte(7))
    }
    fn storage(&self, p: &TrieProof, account: &TrieProof) -> anyhow::Result<bool> {
        let (k, v) = (content::create_storage_content_key(p, B256::repeat_byte(8))?, content::create_storage_content_value(B256::repeat_byte(7), account, p)?);
        let (k, v) = (StateContentKey::try_from_bytes(&k.to_bytes())?, StateContentValue::decode(&k, &v.encode())?);
        let (StateContentKey::ContractStorageTrieNode(k), StateContentValue::ContractStorageTrieNodeWithProof(v)) = (k, v) else { return Ok(false) };
        let account: ethportal_api::types::state_trie::TrieProof = account.into();
        Ok(self.fits(p, &k.path, k.node_hash, &v.storage_proof) && k.address_hash == B256::repeat_byte(8) && v.account_proof == account && v.block_hash == B256::repeat_byte(7))
    }
    fn code(&self, p: &TrieProof) -> anyhow::Result<bool> {
        let code = p.path.clone();
        let hash = keccak256(&code);
        let k = content::create_contract_content_key(B256::repeat_byte(8), hash)?;
        let v = content::create_contract_content_value(B256::repeat_byte(7), p, state::Bytecode(code.clone()))?;
        let (k, v) = (StateContentKey::try_from_bytes(&k.to_bytes())?, StateContentValue::decode(&k, &v.encode())?);
        let (StateContentKey::ContractBytecode(k), StateContentValue::ContractBytecodeWithProof(v)) = (k, v) else { return Ok(false) };
        let proof: ethportal_api::types::state_trie::TrieProof = p.into();
        Ok(k.address_hash == B256::repeat_byte(8) && k.code_hash == hash && v.code[..] == code[..] && v.account_proof == proof && v.block_hash == B256::repeat_byte(7))
    }
    fn fits(&self, p: &TrieProof, path: &Nibbles, hash: B256, proof: &ethportal_api::types::state_trie::TrieProof) -> bool {
        path.nibbles() == p.path
            && self.encoding(&p.path).is_some_and(|e| keccak256(e) == hash)
            && validate_node_trie_proof(Some(self.root), hash, path, proof).is_ok()
    }
    /// Whether the path of a leaf leads to a key.
    fn leads(&self, p: &TrieProof) -> bool {
        let address = alloy::primitives::Address::from_word(keccak256(&p.path));
        let way = utils::address_to_nibble_path(address);
        if way.len() != 64 || way.iter().any(|n| *n > 15) || utils::full_nibble_path_to_address_hash(&way) != keccak256(address) {
            return false;
        }
        let Some(Ok(Node::Leaf(leaf))) = p.proof.last().map(|n| decode_node(&mut n.as_ref())) else { return true };
        let mut rest = leaf.key.get_data().to_vec();
        rest.pop();
        let whole = [&p.path[..], &rest].concat();
        whole.len() == 64 && self.keys.iter().any(|k| key(k) == utils::full_nibble_path_to_address_hash(&whole) && whole.starts_with(k))
    }
}

fn play(c: &Value) -> Vec<Value> {
    let keys: Vec<Vec<u8>> = c["keys"].as_array().expect("driver: keys").iter().map(bytes).collect();
    let mut trie = BuiltTrie::new();
    for k in &keys {
        trie.insert(key(k).as_slice(), [&k[..], &[9u8; 60]].concat());
    }
    let w = World { root: trie.root(), nodes: trie.nodes(), keys };
    let absent: Vec<Vec<u8>> = c["absent"].as_array().expect("driver: paths").iter().map(bytes).collect();
    let db: HashMap<B256, Vec<u8>> = w.nodes.iter().filter(|(p, _)| !absent.contains(p)).map(|(_, e)| (keccak256(e), e.clone())).collect();
    let walk = match text(c, "mode") {
        "partial" => TrieWalker::new_partial_trie(w.root, db),
        "slice" => TrieWalker::new(w.root, Arc::new(db), Some(Filter::new(int(c, "slice") as u16, int(c, "slices") as u16))),
        "lot" => TrieWalker::new(w.root, Arc::new(db), Some(Filter::random(int(c, "slices") as u16))),
        _ => TrieWalker::new(w.root, Arc::new(db), None),
    };
    let mut log = vec![];
    let walk = match walk {
        Ok(walk) => walk,
        Err(_) => return vec![json!({"e": "refused"})],
    };
    let mut before: Option<TrieProof> = None;
    for p in walk.take(2000) {
        let chain: Vec<Value> = p.proof.iter().map(|e| w.nodes.iter().find(|(_, x)| x[..] == e[..]).map_or(json!([99]), |(path, _)| json!(path))).collect();
        let other = before.as_ref().unwrap_or(&p);
        let made = w.account(&p).unwrap_or(false) && w.storage(&p, other).unwrap_or(false) && w.code(&p).unwrap_or(false);
        log.push(json!({"e": "node", "path": p.path, "proof": chain, "made": made, "leads": w.leads(&p)}));
        before = Some(p);
    }
    log.push(json!({"e": "done"}));
    log
}

fn main() {
    run(|i, p| {
        let cfg = p["ops"][0]["c"].clone();
        let ev = guarded(|| play(&cfg)).unwrap_or_else(|m| vec![panic_event("walk", &m)]);
        vec![json!({"id": i, "cfg": cfg, "ev": ev})]
    });
}
