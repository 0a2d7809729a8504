//! Length-bounded SSZ collections with the interface of `ssz_types`.
mod list;
pub mod serde_utils;
pub use list::{FixedVector, VariableList};
pub use ssz::{BitList, BitVector, Bitfield};
pub use typenum;
pub mod length {
    pub use typenum::*;
}

#[derive(PartialEq, Debug, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
