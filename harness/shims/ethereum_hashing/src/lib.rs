use sha2::{Digest, Sha256};
use std::sync::LazyLock;

pub const HASH_LEN: usize = 32;
pub fn hash(input: &[u8]) -> Vec<u8> {
    Sha256::digest(input).to_vec()
}
pub fn hash_fixed(input: &[u8]) -> [u8; HASH_LEN] {
    Sha256::digest(input).into()
}
pub fn hash32_concat(h1: &[u8], h2: &[u8]) -> [u8; 32] {
    let mut c = Sha256::new();
    c.update(h1);
    c.update(h2);
    c.finalize().into()
}
pub const ZERO_HASHES_MAX_INDEX: usize = 48;
pub static ZERO_HASHES: LazyLock<Vec<[u8; HASH_LEN]>> = LazyLock::new(|| {
    let mut v = vec![[0; HASH_LEN]; ZERO_HASHES_MAX_INDEX + 1];
    for i in 0..ZERO_HASHES_MAX_INDEX {
        v[i + 1] = hash32_concat(&v[i], &v[i]);
    }
    v
});
