use tiny_keccak::{Hasher, Keccak};
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> [u8; 32];
    fn digest(d: impl AsRef<[u8]>) -> [u8; 32] {
        let mut h = Self::new();
        h.update(d);
        h.finalize()
    }
}
pub struct Keccak256(Keccak);
impl Digest for Keccak256 {
    fn new() -> Self {
        Self(Keccak::v256())
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.update(d.as_ref())
    }
    fn finalize(self) -> [u8; 32] {
        let mut o = [0; 32];
        self.0.finalize(&mut o);
        o
    }
}
