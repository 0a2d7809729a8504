//! Building tries from key/value sets: roots and proofs.
use alloy_primitives::{keccak256, B256};
use alloy_rlp::Encodable;
use std::collections::BTreeMap;

#[derive(Clone, Default)]
pub struct Trie {
    items: BTreeMap<Vec<u8>, Vec<u8>>,
}
fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let payload: usize = items.iter().map(|i| i.len()).sum();
    let mut out = vec![];
    alloy_rlp::Header { list: true, payload_length: payload }.encode(&mut out);
    for i in items {
        out.extend_from_slice(i);
    }
    out
}
fn bytes(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    b.encode(&mut o);
    o
}
fn compact(nib: &[u8], leaf: bool) -> Vec<u8> {
    let mut h = nib.to_vec();
    if leaf {
        h.push(16);
    }
    crate::nibbles::Nibbles::from_hex(&h).encode_compact()
}
fn reference(enc: Vec<u8>) -> Vec<u8> {
    if enc.len() < 32 { enc } else { bytes(keccak256(&enc).as_slice()) }
}
/// Encodes the sub-trie of `items` (keys are nibbles, `depth` already consumed); when `path` is
/// given, the encodings of the nodes along it are pushed to `proof` (root first).
fn encode(items: &[(&[u8], &[u8])], depth: usize, path: Option<&[u8]>, proof: &mut Vec<Vec<u8>>) -> Vec<u8> {
    if items.is_empty() {
        return vec![0x80];
    }
    let at = proof.len();
    if path.is_some() {
        proof.push(vec![]);
    }
    let enc = if items.len() == 1 {
        list(&[bytes(&compact(&items[0].0[depth..], true)), bytes(items[0].1)])
    } else {
        let first = items[0].0;
        let last = items[items.len() - 1].0;
        let mut common = 0;
        while depth + common < first.len() && depth + common < last.len() && first[depth + common] == last[depth + common] {
            common += 1;
        }
        if common > 0 {
            let sub = path.filter(|p| p.len() >= depth + common && p[depth..depth + common] == first[depth..depth + common]);
            let child = encode(items, depth + common, sub, proof);
            list(&[bytes(&compact(&first[depth..depth + common], false)), reference(child)])
        } else {
            let mut parts = vec![];
            let value: &[u8] = if first.len() == depth { items[0].1 } else { &[] };
            for n in 0..16u8 {
                let group: Vec<_> = items.iter().copied().filter(|i| i.0.len() > depth && i.0[depth] == n).collect();
                if group.is_empty() {
                    parts.push(vec![0x80]);
                } else {
                    let sub = path.filter(|p| p.len() > depth && p[depth] == n);
                    parts.push(reference(encode(&group, depth + 1, sub, proof)));
                }
            }
            parts.push(bytes(value));
            list(&parts)
        }
    };
    if path.is_some() {
        proof[at] = enc.clone();
    }
    enc
}
fn below(items: &[(&[u8], &[u8])], depth: usize, out: &mut Vec<(Vec<u8>, Vec<u8>)>) {
    let enc = encode(items, depth, None, &mut vec![]);
    if items.is_empty() || (depth > 0 && enc.len() < 32) {
        return;
    }
    let (first, last) = (items[0].0, items[items.len() - 1].0);
    out.push((first[..depth].to_vec(), enc));
    let common = first[depth..].iter().zip(&last[depth..]).take_while(|(a, b)| a == b).count();
    if items.len() > 1 && common > 0 {
        below(items, depth + common, out);
    } else if items.len() > 1 {
        for n in 0..16u8 {
            let group: Vec<_> = items.iter().copied().filter(|i| i.0.len() > depth && i.0[depth] == n).collect();
            if !group.is_empty() {
                below(&group, depth + 1, out);
            }
        }
    }
}
impl Trie {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, key: &[u8], value: Vec<u8>) {
        let nib = key.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        self.items.insert(nib, value);
    }
    pub fn root(&self) -> B256 {
        let v: Vec<(&[u8], &[u8])> = self.items.iter().map(|(k, v)| (&k[..], &v[..])).collect();
        keccak256(encode(&v, 0, None, &mut vec![]))
    }
    /// Paths and encodings of all nodes that are not embedded in their parent.
    pub fn nodes(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        let v: Vec<(&[u8], &[u8])> = self.items.iter().map(|(k, v)| (&k[..], &v[..])).collect();
        let mut out = vec![];
        below(&v, 0, &mut out);
        out
    }
    /// Encoded nodes on the way to `key`, root first; nodes embedded in their parent are left out.
    pub fn proof(&self, key: &[u8]) -> Vec<Vec<u8>> {
        let nib: Vec<u8> = key.iter().flat_map(|b| [b >> 4, b & 15]).collect();
        let v: Vec<(&[u8], &[u8])> = self.items.iter().map(|(k, v)| (&k[..], &v[..])).collect();
        let mut p = vec![];
        encode(&v, 0, Some(&nib), &mut p);
        p.into_iter().enumerate().filter(|(i, e)| *i == 0 || e.len() >= 32).map(|(_, e)| e).collect()
    }
}
pub fn trie_root<I: IntoIterator<Item = (Vec<u8>, Vec<u8>)>>(items: I) -> B256 {
    let mut t = Trie::new();
    for (k, v) in items {
        t.insert(&k, v);
    }
    t.root()
}
pub fn ordered_root<I: IntoIterator<Item = Vec<u8>>>(items: I) -> B256 {
    trie_root(items.into_iter().enumerate().map(|(i, v)| (alloy_rlp::encode(i), v)))
}
