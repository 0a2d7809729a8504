//! SSZ hash tree root with the interface of the `tree_hash` crate.
use alloy_primitives::{Address, B256, Bloom, FixedBytes, U128, U256};
use ethereum_hashing::{hash32_concat, ZERO_HASHES};
use smallvec::SmallVec;
use std::sync::Arc;

pub const BYTES_PER_CHUNK: usize = 32;
pub const HASHSIZE: usize = 32;
pub const MERKLE_HASH_CHUNK: usize = 64;
pub const MAX_UNION_SELECTOR: u8 = 127;
pub type Hash256 = B256;
pub type PackedEncoding = SmallVec<[u8; 32]>;

#[derive(Debug, PartialEq, Clone)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}
pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}
impl<T: TreeHash> TreeHash for &T {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        T::tree_hash_packed_encoding(self)
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        T::tree_hash_root(self)
    }
}
impl<T: TreeHash> TreeHash for Arc<T> {
    fn tree_hash_type() -> TreeHashType {
        T::tree_hash_type()
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        self.as_ref().tree_hash_packed_encoding()
    }
    fn tree_hash_packing_factor() -> usize {
        T::tree_hash_packing_factor()
    }
    fn tree_hash_root(&self) -> Hash256 {
        self.as_ref().tree_hash_root()
    }
}

pub fn merkle_root(bytes: &[u8], minimum_leaf_count: usize) -> Hash256 {
    let mut layer: Vec<[u8; 32]> = bytes
        .chunks(32)
        .map(|c| {
            let mut a = [0u8; 32];
            a[..c.len()].copy_from_slice(c);
            a
        })
        .collect();
    let leaves = std::cmp::max(layer.len(), minimum_leaf_count).max(1).next_power_of_two();
    let depth = leaves.trailing_zeros() as usize;
    if layer.is_empty() {
        return Hash256::from(ZERO_HASHES[depth]);
    }
    for d in 0..depth {
        if layer.len() % 2 == 1 {
            layer.push(ZERO_HASHES[d]);
        }
        layer = layer.chunks(2).map(|p| hash32_concat(&p[0], &p[1])).collect();
    }
    Hash256::from(layer[0])
}
pub fn mix_in_length(root: &Hash256, length: usize) -> Hash256 {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(length as u64).to_le_bytes());
    Hash256::from(hash32_concat(root.as_slice(), &l))
}
pub fn mix_in_selector(root: &Hash256, selector: u8) -> Option<Hash256> {
    if selector > MAX_UNION_SELECTOR {
        return None;
    }
    let mut l = [0u8; 32];
    l[0] = selector;
    Some(Hash256::from(hash32_concat(root.as_slice(), &l)))
}

#[derive(Debug, PartialEq)]
pub enum Error {
    MaximumLeavesExceeded { max_leaves: usize },
}
/// Incremental hasher over a fixed number of leaves.
pub struct MerkleHasher {
    bytes: Vec<u8>,
    leaves: usize,
}
impl MerkleHasher {
    pub fn with_leaves(num_leaves: usize) -> Self {
        Self { bytes: vec![], leaves: num_leaves }
    }
    pub fn with_depth(depth: usize) -> Self {
        Self { bytes: vec![], leaves: 1 << (depth - 1) }
    }
    pub fn write(&mut self, bytes: &[u8]) -> Result<(), Error> {
        self.bytes.extend_from_slice(bytes);
        if self.bytes.len().div_ceil(32) > self.leaves.next_power_of_two() {
            return Err(Error::MaximumLeavesExceeded { max_leaves: self.leaves });
        }
        Ok(())
    }
    pub fn finish(self) -> Result<Hash256, Error> {
        Ok(merkle_root(&self.bytes, self.leaves))
    }
}

fn pad(b: &[u8]) -> Hash256 {
    let mut a = [0u8; 32];
    a[..b.len()].copy_from_slice(b);
    Hash256::from(a)
}
macro_rules! basic {
    ($($t:ty, $n:expr, |$s:ident| $e:expr;)*) => {$(
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding { let $s = self; PackedEncoding::from_slice(&$e) }
            fn tree_hash_packing_factor() -> usize { 32 / $n }
            fn tree_hash_root(&self) -> Hash256 { let $s = self; pad(&$e) }
        }
    )*}
}
basic! {
    u8, 1, |s| s.to_le_bytes();
    u16, 2, |s| s.to_le_bytes();
    u32, 4, |s| s.to_le_bytes();
    u64, 8, |s| s.to_le_bytes();
    usize, 8, |s| s.to_le_bytes();
    bool, 1, |s| [*s as u8];
    U128, 16, |s| s.to_le_bytes::<16>();
    U256, 32, |s| s.to_le_bytes::<32>();
}
impl<const N: usize> TreeHash for [u8; N] {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("bytesN should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self, N.div_ceil(32))
    }
}
impl<const N: usize> TreeHash for FixedBytes<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(self.as_slice())
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self.as_slice(), N.div_ceil(32))
    }
}
impl TreeHash for Address {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        PackedEncoding::from_slice(pad(self.as_slice()).as_slice())
    }
    fn tree_hash_packing_factor() -> usize {
        1
    }
    fn tree_hash_root(&self) -> Hash256 {
        pad(self.as_slice())
    }
}
impl TreeHash for Bloom {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!()
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self.as_slice(), 8)
    }
}
impl<N: typenum::Unsigned> TreeHash for ssz::BitList<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        let b: &[u8] = if self.is_empty() { &[] } else { self.as_slice() };
        mix_in_length(&merkle_root(b, N::to_usize().div_ceil(256)), self.len())
    }
}
impl<N: typenum::Unsigned> TreeHash for ssz::BitVector<N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle_root(self.as_slice(), N::to_usize().div_ceil(256))
    }
}
/// Root of a sequence of values as a vector with room for `n` of them.
pub fn vec_tree_hash_root<T: TreeHash>(vec: &[T], n: usize) -> Hash256 {
    let mut bytes = vec![];
    match T::tree_hash_type() {
        TreeHashType::Basic => {
            for v in vec {
                bytes.extend_from_slice(&v.tree_hash_packed_encoding());
            }
            merkle_root(&bytes, n.div_ceil(T::tree_hash_packing_factor()))
        }
        _ => {
            for v in vec {
                bytes.extend_from_slice(v.tree_hash_root().as_slice());
            }
            merkle_root(&bytes, n)
        }
    }
}
