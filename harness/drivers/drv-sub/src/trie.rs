//! The validator of the state network, on small tries.
use crate::block_on;
use alloy::primitives::{keccak256, B256};
use common::*;
use ethportal_api::{
    types::{
        content_key::state::*,
        content_value::state::*,
        state_trie::{nibbles::Nibbles, ByteCode, EncodedTrieNode, TrieProof},
    },
    StateContentKey,
};
use serde_json::{json, Value};
use ssz::Encode;
use std::{collections::HashMap, sync::Arc};
use trin_state::validation::StateValidator;
use trin_validation::{oracle::HeaderOracle, validator::{ValidationResult, Validator}};

fn string(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = header(0x80, b.len());
    o.extend(b);
    o
}
fn header(base: u8, len: usize) -> Vec<u8> {
    if len < 56 {
        return vec![base + len as u8];
    }
    let l: Vec<u8> = len.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
    let mut o = vec![base + 55 + l.len() as u8];
    o.extend(l);
    o
}
fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = header(0xc0, body.len());
    o.extend(body);
    o
}
pub fn nibbles(v: &Value) -> Vec<u8> {
    v.as_array().expect("driver: nibbles").iter().map(|x| x.as_u64().expect("driver: nibble") as u8).collect()
}
fn compact(n: &[u8], leaf: bool) -> Vec<u8> {
    let flag = if leaf { 0x20 } else { 0 };
    let (first, rest) = if n.len() % 2 == 1 { (flag | 0x10 | n[0], &n[1..]) } else { (flag, n) };
    let mut o = vec![first];
    o.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
    o
}
pub fn stray(tag: u64) -> B256 {
    keccak256([b"stray".as_slice(), &tag.to_be_bytes()].concat())
}
pub fn code(k: i64) -> Vec<u8> {
    (0..k as usize * 37).map(|i| (i * 11 + k as usize) as u8).collect()
}
fn junk(k: u8) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0x00],
        2 => vec![0xc2, 0x80],
        3 => list(&[string(&[1; 40]), string(&[2; 40]), string(&[3; 40])]),
        4 => vec![0xff; 40],
        5 => list(&vec![string(&[7; 5]); 17]),
        _ => vec![0xf8, 0xff, 0x01, 0x02],
    }
}
pub struct Built(pub Vec<Vec<u8>>);
impl Built {
    pub fn hash(&self, i: u64) -> B256 {
        if i == 0 { stray(1 << 40) } else { keccak256(&self.0[i as usize - 1]) }
    }
    fn reference(&self, r: &Value) -> Vec<u8> {
        let i = int(r, "i") as u64;
        match text(r, "r") {
            "in" => self.0[i as usize - 1].clone(),
            "hash" => string(self.hash(i).as_slice()),
            _ => string(stray(i).as_slice()),
        }
    }
    fn value(&self, v: &Value) -> Vec<u8> {
        match text(v, "t") {
            "none" => vec![],
            "tiny" => vec![9],
            "long" => vec![0x5a; 40],
            "junk" => vec![0xc3, 1, 2, 3],
            _ => list(&[
                string([&[], &[5][..], &[], &[0xff; 8]][int(v, "m") as usize]),
                string([&[], &[1, 0, 0][..], &[1], &[0xff; 32]][int(v, "m") as usize]),
                string(self.hash(int(v, "root") as u64).as_slice()),
                string(keccak256(code(int(v, "code"))).as_slice()),
            ]),
        }
    }
    pub fn new(nodes: &Value) -> Self {
        let mut b = Built(vec![]);
        for n in nodes.as_array().expect("driver: nodes") {
            let key = nibbles(&n["key"]);
            let ch = n["ch"].as_array().expect("driver: children");
            let bytes = match text(n, "k") {
                "leaf" => list(&[string(&compact(&key, true)), string(&b.value(&n["val"]))]),
                "ext" => list(&[string(&compact(&key, false)), b.reference(&ch[0]["r"])]),
                "branch" => {
                    let mut items = vec![vec![0x80]; 16];
                    // earlier children win, as a branch has one per nibble
                    for c in ch.iter().rev() {
                        items[int(c, "n") as usize] = b.reference(&c["r"]);
                    }
                    items.push(string(&b.value(&n["val"])));
                    list(&items)
                }
                "empty" => vec![0x80],
                _ => junk(key[0]),
            };
            b.0.push(bytes);
        }
        b
    }
    pub fn classes(&self) -> Vec<usize> {
        let mut seen = HashMap::new();
        self.0.iter().enumerate().map(|(i, b)| *seen.entry(b).or_insert(i + 1)).collect()
    }
    pub fn proof(&self, p: &Value) -> TrieProof {
        TrieProof::from(p.as_array().expect("driver: proof").iter().map(|i| self.node(i.as_u64().expect("driver: place"))).collect::<Vec<_>>())
    }
    pub fn node(&self, i: u64) -> EncodedTrieNode {
        EncodedTrieNode::from(self.0[i as usize - 1].clone())
    }
}
pub fn pack(n: &[u8]) -> B256 {
    B256::from_slice(&n.chunks(2).map(|c| c[0] << 4 | c[1]).collect::<Vec<_>>())
}
fn content(c: &Value, b: &Built) -> (StateContentKey, Vec<u8>) {
    let block_hash = stray(99);
    let addr = nibbles(&c["addr"]);
    let address_hash = if addr.len() == 64 { pack(&addr) } else { stray(98) };
    let path = Nibbles::try_from_unpacked_nibbles(&nibbles(&c["path"])).expect("driver: path");
    let node_hash = b.hash(int(c, "want") as u64);
    let account = || AccountTrieNodeWithProof { proof: b.proof(&c["proof"]), block_hash }.as_ssz_bytes();
    let storage = || ContractStorageTrieNodeWithProof { storage_proof: b.proof(&c["proof"]), account_proof: b.proof(&c["aproof"]), block_hash }.as_ssz_bytes();
    let bytecode = || ContractBytecodeWithProof { code: ByteCode::from(code(int(c, "code"))), account_proof: b.proof(&c["aproof"]), block_hash }.as_ssz_bytes();
    let kind = text(c, "kind");
    let key = match kind {
        "account" => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path, node_hash }),
        "storage" => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash, path, node_hash }),
        _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash, code_hash: keccak256(code(int(c, "wantcode"))) }),
    };
    let whole = || match kind {
        "account" => account(),
        "storage" => storage(),
        _ => bytecode(),
    };
    let value = match text(c, "form") {
        "bare" if kind == "code" => ContractBytecode { code: ByteCode::from(code(int(c, "code"))) }.as_ssz_bytes(),
        "bare" => match c["proof"].as_array().expect("driver: proof").last() {
            Some(i) => TrieNode { node: b.node(i.as_u64().expect("driver: place")) }.as_ssz_bytes(),
            None => TrieNode { node: EncodedTrieNode::from(vec![0x42; 9]) }.as_ssz_bytes(),
        },
        "proof" => whole(),
        "cut" => {
            let mut w = whole();
            w.pop();
            w
        }
        "kind" => match kind {
            "account" => storage(),
            _ => account(),
        },
        _ => vec![],
    };
    (key, value)
}

pub fn run(i: usize, p: &Value) -> Value {
    let mut ev = vec![];
    for c in p["ops"].as_array().expect("driver: ops") {
        let b = Built::new(&c["nodes"]);
        let (key, value) = content(c, &b);
        let out = guarded(|| {
            let v = StateValidator { header_oracle: Arc::new(tokio::sync::RwLock::new(HeaderOracle::new())) };
            block_on(v.validate_content(&key, &value))
        });
        match out {
            Ok(r) => {
                let mut e = c.clone();
                e["e"] = json!("judge");
                e["cls"] = json!(b.classes());
                e["out"] = json!(match r {
                    ValidationResult::CanonicallyValid => "canonical",
                    ValidationResult::Valid => "valid",
                    ValidationResult::Invalid(_) => "invalid",
                });
                ev.push(e);
            }
            Err(m) => ev.push(panic_event("judge", &m)),
        }
    }
    json!({"id": i, "cfg": {}, "ev": ev})
}
