use crate::ints;
use alloy::primitives::B256;
use common::*;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use trin_validation::merkle::proof::{verify_merkle_proof, MerkleTree};

fn leaf(k: i64) -> [u8; 32] {
    if k == 0 {
        [0; 32]
    } else {
        let mut b = [k as u8; 32];
        b[0] = 0xa0 + k as u8;
        b
    }
}

/// Knows which term every hash stands for; computed here with plain SHA-256.
struct Names(HashMap<[u8; 32], Value>, HashMap<usize, [u8; 32]>);
impl Names {
    fn new() -> Self {
        let mut n = Names(HashMap::new(), HashMap::new());
        for k in 1..=9 {
            n.0.insert(leaf(k), json!(["l", k]));
        }
        let mut z = [0u8; 32];
        for d in 0..=33 {
            n.0.insert(z, json!(["z", d]));
            n.1.insert(d, z);
            z = Sha256::new().chain_update(z).chain_update(z).finalize().into();
        }
        n
    }
    fn pair(&mut self, a: [u8; 32], b: [u8; 32]) -> [u8; 32] {
        let h: [u8; 32] = Sha256::new().chain_update(a).chain_update(b).finalize().into();
        if !self.0.contains_key(&h) {
            let t = json!(["n", self.term(&a), self.term(&b)]);
            self.0.insert(h, t);
        }
        h
    }
    fn term(&self, h: &[u8; 32]) -> Value {
        self.0.get(h).cloned().unwrap_or(json!(["?", 0]))
    }
    fn root(&mut self, leaves: &[i64], d: usize) -> [u8; 32] {
        if leaves.is_empty() {
            return self.1[&d];
        }
        if d == 0 {
            return leaf(leaves[0]);
        }
        let c = if d > 20 { leaves.len() } else { (1usize << (d - 1)).min(leaves.len()) };
        let (l, r) = (self.root(&leaves[..c], d - 1), self.root(&leaves[c..], d - 1));
        self.pair(l, r)
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let ops = p["ops"].as_array().expect("driver: ops");
    let d = int(&ops[0], "d") as usize;
    let mut leaves = ints(&ops[0]["leaves"]);
    let cfg = json!({"d": d, "leaves": leaves});
    let mut names = Names::new();
    let mut ev = vec![];
    let r = guarded(|| {
        let b = |ks: &[i64]| ks.iter().map(|k| B256::from(leaf(*k))).collect::<Vec<_>>();
        names.root(&leaves, d);
        let mut t = MerkleTree::create(&b(&leaves), d);
        ev.push(json!({"e": "create", "root": names.term(&t.hash().0)}));
        let mut fin = 0;
        let mut old_roots: Vec<[u8; 32]> = vec![];
        for o in &ops[1..] {
            match text(o, "op") {
                "push" => {
                    let k = int(o, "k");
                    old_roots.push(t.hash().0);
                    let ok = t.push_leaf(leaf(k).into(), d).is_ok();
                    if ok {
                        leaves.push(k);
                    }
                    names.root(&leaves, d);
                    ev.push(json!({"e": "push", "k": k, "ok": ok, "root": names.term(&t.hash().0)}));
                    // the same leaves at once
                    let c = MerkleTree::create(&b(&leaves), d);
                    ev.push(json!({"e": "create", "root": names.term(&c.hash().0)}));
                }
                "finalize" => {
                    let n = int(o, "n") as usize;
                    if n > leaves.len() {
                        continue;
                    }
                    let ok = t.finalize_deposits(n, d).is_ok();
                    fin = fin.max(n);
                    ev.push(json!({"e": "finalize", "n": n, "ok": ok, "root": names.term(&t.hash().0)}));
                }
                "snapshot" => {
                    names.root(&leaves[..fin], d);
                    let s = MerkleTree::from_finalized_snapshot(&t.get_finalized_hashes(), fin, d);
                    let (ok, root) = match &s {
                        Ok(s) => (true, names.term(&s.hash().0)),
                        Err(_) => (false, json!(["?", 0])),
                    };
                    ev.push(json!({"e": "snapshot", "ok": ok, "root": root}));
                }
                "proof" => {
                    let i = int(o, "i") as usize;
                    if i >= leaves.len() || i < fin {
                        continue;
                    }
                    let (ok, l, br) = match t.generate_proof(i, d) {
                        Ok((l, br)) => (true, l, br),
                        Err(_) => (false, B256::ZERO, vec![]),
                    };
                    let terms = |names: &Names, br: &[B256]| br.iter().map(|h| names.term(&h.0)).collect::<Vec<_>>();
                    ev.push(json!({"e": "proof", "i": i, "ok": ok, "leaf": names.term(&l.0), "branch": terms(&names, &br)}));
                    if !ok {
                        continue;
                    }
                    let root = t.hash();
                    let mut check = |l: B256, br: &[B256], depth: usize, i: usize, root: B256| {
                        let res = verify_merkle_proof(l, br, depth, i, root);
                        ev.push(json!({"e": "verify", "leaf": names.term(&l.0), "branch": terms(&names, br), "depth": depth,
                                       "i": i, "root": names.term(&root.0), "res": res}));
                    };
                    check(l, &br, d, i, root);
                    for k in 0..=3 {
                        check(leaf(k).into(), &br, d, i, root);
                    }
                    for j in 0..(1usize << d.min(4)) {
                        check(l, &br, d, j, root);
                    }
                    for old in &old_roots {
                        check(l, &br, d, i, (*old).into());
                    }
                    check(root, &[], 0, 0, root);
                    check(l, &br[..d - 1], d, i, root);
                    check(l, &br[..d - 1], d - 1, i, root);
                    let mut longer = br.clone();
                    longer.push(B256::ZERO);
                    check(l, &longer, d, i, root);
                    for x in 0..d.min(5) {
                        let mut other = br.clone();
                        other[x] = leaf(4).into();
                        check(l, &other, d, i, root);
                        let mut swapped = br.clone();
                        swapped.swap(x, d - 1);
                        check(l, &swapped, d, i, root);
                    }
                }
                _ => {}
            }
        }
    });
    if let Err(m) = r {
        ev.push(panic_event("tree", &m));
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}
