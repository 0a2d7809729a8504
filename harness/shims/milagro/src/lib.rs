//! Symbolic aggregate signatures: the signature of a set of keys on a message is the hash of the
//! message and the keys, so it verifies for exactly the message and the set it was made for.
use sha2::{Digest, Sha256};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PublicKey(Vec<u8>);
impl PublicKey {
    pub fn from_bytes_unchecked(bytes: &[u8]) -> Result<Self, Error> {
        Ok(PublicKey(bytes.to_vec()))
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, Error> {
        Ok(PublicKey(bytes.to_vec()))
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AggregateSignature([u8; 96]);
impl AggregateSignature {
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, Error> {
        Ok(AggregateSignature(bytes.try_into().map_err(|_| Error)?))
    }
    pub fn as_bytes(&self) -> [u8; 96] {
        self.0
    }
    /// What the holders of `keys` would produce together for `msg`.
    pub fn of(msg: &[u8], keys: &[&PublicKey]) -> Self {
        let mut keys: Vec<&[u8]> = keys.iter().map(|k| &k.0[..]).collect();
        keys.sort();
        let mut h = Sha256::new();
        h.update(msg);
        for k in keys {
            h.update(k);
        }
        let d = h.finalize();
        let mut out = [0; 96];
        out[..32].copy_from_slice(&d);
        AggregateSignature(out)
    }
    pub fn fast_aggregate_verify(&self, msg: &[u8], keys: &[&PublicKey]) -> bool {
        !keys.is_empty() && *self == Self::of(msg, keys)
    }
    pub fn fast_aggregate_verify_pre_aggregated(&self, _msg: &[u8], _key: &PublicKey) -> bool {
        unimplemented!()
    }
}
