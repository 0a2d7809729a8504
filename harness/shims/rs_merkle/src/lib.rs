//! Binary SHA-256 Merkle tree; an unpaired node is carried up unchanged.
use sha2::Digest;
pub trait Hasher: Clone {
    type Hash: Copy + PartialEq;
    fn hash(data: &[u8]) -> Self::Hash;
    fn concat_and_hash(l: &Self::Hash, r: &Self::Hash) -> Self::Hash;
}
pub mod algorithms {
    #[derive(Clone)]
    pub struct Sha256;
}
impl Hasher for algorithms::Sha256 {
    type Hash = [u8; 32];
    fn hash(data: &[u8]) -> [u8; 32] {
        sha2::Sha256::digest(data).into()
    }
    fn concat_and_hash(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
        let mut d = sha2::Sha256::new();
        d.update(l);
        d.update(r);
        d.finalize().into()
    }
}
pub struct MerkleTree<T: Hasher> {
    layers: Vec<Vec<T::Hash>>,
}
pub struct MerkleProof<T: Hasher>(Vec<T::Hash>);
impl<T: Hasher> MerkleProof<T> {
    pub fn proof_hashes(&self) -> &[T::Hash] {
        &self.0
    }
}
impl<T: Hasher> MerkleTree<T> {
    pub fn from_leaves(leaves: &[T::Hash]) -> Self {
        let mut layers = vec![leaves.to_vec()];
        while layers.last().unwrap().len() > 1 {
            let next = layers
                .last()
                .unwrap()
                .chunks(2)
                .map(|c| if c.len() == 2 { T::concat_and_hash(&c[0], &c[1]) } else { c[0] })
                .collect();
            layers.push(next);
        }
        Self { layers }
    }
    pub fn root(&self) -> Option<T::Hash> {
        self.layers.last().and_then(|l| l.first().copied())
    }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<T> {
        let mut out = vec![];
        let mut idx: Vec<usize> = indices.to_vec();
        for layer in &self.layers {
            if layer.len() <= 1 {
                break;
            }
            for i in &idx {
                let s = i ^ 1;
                if !idx.contains(&s) {
                    if let Some(h) = layer.get(s) {
                        out.push(*h);
                    }
                }
            }
            idx = idx.iter().map(|i| i / 2).collect();
            idx.dedup();
        }
        MerkleProof(out)
    }
}
