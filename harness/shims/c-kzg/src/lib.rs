pub const BYTES_PER_COMMITMENT: usize = 48;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bytes48([u8; 48]);
impl From<[u8; 48]> for Bytes48 {
    fn from(b: [u8; 48]) -> Self {
        Self(b)
    }
}
