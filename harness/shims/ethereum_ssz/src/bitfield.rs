use crate::{Decode, DecodeError, Encode};
use core::marker::PhantomData;
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use typenum::Unsigned;

#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Variable<N>(PhantomData<N>);
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Fixed<N>(PhantomData<N>);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bitfield<T> {
    bytes: Vec<u8>,
    len: usize,
    _p: PhantomData<T>,
}
pub type BitList<N> = Bitfield<Variable<N>>;
pub type BitVector<N> = Bitfield<Fixed<N>>;

fn bytes_for(len: usize) -> usize {
    std::cmp::max(1, len.div_ceil(8))
}
fn excess(bytes: &[u8], len: usize) -> bool {
    (len..bytes.len() * 8).any(|i| bytes[i / 8] >> (i % 8) & 1 == 1)
}

impl<T> Bitfield<T> {
    pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
        if i >= self.len {
            return Err(Error::OutOfBounds { i, len: self.len });
        }
        if value {
            self.bytes[i / 8] |= 1 << (i % 8);
        } else {
            self.bytes[i / 8] &= !(1 << (i % 8));
        }
        Ok(())
    }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        if i >= self.len {
            return Err(Error::OutOfBounds { i, len: self.len });
        }
        Ok(self.bytes[i / 8] >> (i % 8) & 1 == 1)
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.bytes
    }
    pub fn num_set_bits(&self) -> usize {
        self.bytes.iter().map(|b| b.count_ones() as usize).sum()
    }
    pub fn is_zero(&self) -> bool {
        self.bytes.iter().all(|b| *b == 0)
    }
    pub fn highest_set_bit(&self) -> Option<usize> {
        (0..self.len).rev().find(|i| self.bytes[i / 8] >> (i % 8) & 1 == 1)
    }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
        (0..self.len).map(|i| self.bytes[i / 8] >> (i % 8) & 1 == 1)
    }
    fn raw(bytes: Vec<u8>, len: usize) -> Result<Self, Error> {
        if bytes.len() != bytes_for(len) {
            return Err(Error::InvalidByteCount { given: bytes.len(), expected: bytes_for(len) });
        }
        if excess(&bytes, len) {
            return Err(Error::ExcessBits);
        }
        Ok(Self { bytes, len, _p: PhantomData })
    }
    pub fn into_raw_bytes(self) -> Vec<u8> {
        self.bytes
    }
}

impl<N: Unsigned> Bitfield<Variable<N>> {
    pub fn with_capacity(len: usize) -> Result<Self, Error> {
        if len > N::to_usize() {
            return Err(Error::OutOfBounds { i: len, len: N::to_usize() });
        }
        Ok(Self { bytes: vec![0; bytes_for(len)], len, _p: PhantomData })
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        let len = self.len;
        let mut bytes = self.bytes;
        bytes.resize(len / 8 + 1, 0);
        bytes[len / 8] |= 1 << (len % 8);
        bytes
    }
    pub fn from_bytes(bytes: Vec<u8>) -> Result<Self, Error> {
        let mut bytes = bytes;
        let last = *bytes.last().ok_or(Error::MissingLengthInformation)?;
        if last == 0 {
            return Err(Error::MissingLengthInformation);
        }
        let len = (bytes.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
        if len > N::to_usize() {
            return Err(Error::OutOfBounds { i: len, len: N::to_usize() });
        }
        let n = bytes.len();
        bytes[n - 1] &= !(1 << (len % 8));
        bytes.truncate(bytes_for(len));
        Self::raw(bytes, len)
    }
}
impl<N: Unsigned> Bitfield<Fixed<N>> {
    pub fn new() -> Self {
        Self { bytes: vec![0; bytes_for(N::to_usize())], len: N::to_usize(), _p: PhantomData }
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.bytes
    }
    pub fn from_bytes(bytes: Vec<u8>) -> Result<Self, Error> {
        Self::raw(bytes, N::to_usize())
    }
}
impl<N: Unsigned> Default for Bitfield<Fixed<N>> {
    fn default() -> Self {
        Self::new()
    }
}
impl<N: Unsigned> Encode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.len / 8 + 1
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend(self.clone().into_bytes())
    }
}
impl<N: Unsigned> Decode for Bitfield<Variable<N>> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(bytes.to_vec()).map_err(|e| DecodeError::BytesInvalid(format!("BitList failed to decode: {e:?}")))
    }
}
impl<N: Unsigned> Encode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        bytes_for(N::to_usize())
    }
    fn ssz_bytes_len(&self) -> usize {
        self.bytes.len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.bytes)
    }
}
impl<N: Unsigned> Decode for Bitfield<Fixed<N>> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        bytes_for(N::to_usize())
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Self::from_bytes(bytes.to_vec()).map_err(|e| DecodeError::BytesInvalid(format!("BitVector failed to decode: {e:?}")))
    }
}
fn unhex<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(D::Error::custom)
}
impl<N: Unsigned> Serialize for Bitfield<Variable<N>> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.as_ssz_bytes())))
    }
}
impl<'de, N: Unsigned> Deserialize<'de> for Bitfield<Variable<N>> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::from_bytes(unhex(d)?).map_err(D::Error::custom)
    }
}
impl<N: Unsigned> Serialize for Bitfield<Fixed<N>> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.as_ssz_bytes())))
    }
}
impl<'de, N: Unsigned> Deserialize<'de> for Bitfield<Fixed<N>> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::from_bytes(unhex(d)?).map_err(D::Error::custom)
    }
}
