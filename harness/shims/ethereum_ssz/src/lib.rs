//! SimpleSerialize with the interface of the `ethereum_ssz` crate.
mod bitfield;
mod impls;

pub use bitfield::{BitList, BitVector, Bitfield, Error as BitfieldError};
use smallvec::SmallVec;

pub const BYTES_PER_LENGTH_OFFSET: usize = 4;
pub const BYTES_PER_UNION_SELECTOR: usize = 1;
pub const MAX_UNION_SELECTOR: u8 = 127;
pub const MAX_LENGTH_VALUE: usize = u32::MAX as usize;

#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut buf = vec![];
        self.ssz_append(&mut buf);
        buf
    }
}
pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

pub fn ssz_encode<T: Encode>(val: &T) -> Vec<u8> {
    val.as_ssz_bytes()
}

pub struct SszEncoder<'a> {
    offset: usize,
    buf: &'a mut Vec<u8>,
    variable_bytes: Vec<u8>,
}
impl<'a> SszEncoder<'a> {
    pub fn container(buf: &'a mut Vec<u8>, num_fixed_bytes: usize) -> Self {
        buf.reserve(num_fixed_bytes);
        Self { offset: num_fixed_bytes, buf, variable_bytes: vec![] }
    }
    pub fn append<T: Encode>(&mut self, item: &T) {
        self.append_parameterized(T::is_ssz_fixed_len(), |b| item.ssz_append(b))
    }
    pub fn append_parameterized<F: Fn(&mut Vec<u8>)>(&mut self, fixed: bool, f: F) {
        if fixed {
            f(self.buf);
        } else {
            self.buf.extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));
            f(&mut self.variable_bytes);
        }
    }
    pub fn finalize(&mut self) -> &mut Vec<u8> {
        self.buf.append(&mut self.variable_bytes);
        self.buf
    }
}
pub fn encode_length(len: usize) -> [u8; BYTES_PER_LENGTH_OFFSET] {
    (len as u32).to_le_bytes()
}
pub fn read_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    decode_offset(bytes.get(0..4).ok_or(DecodeError::InvalidLengthPrefix { len: bytes.len(), expected: 4 })?)
}
fn decode_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    let a: [u8; 4] = bytes
        .try_into()
        .map_err(|_| DecodeError::InvalidLengthPrefix { len: bytes.len(), expected: 4 })?;
    Ok(u32::from_le_bytes(a) as usize)
}
pub fn split_union_bytes(bytes: &[u8]) -> Result<(UnionSelector, &[u8]), DecodeError> {
    let s = bytes.first().copied().ok_or(DecodeError::OutOfBoundsByte { i: 0 })?;
    Ok((UnionSelector::new(s)?, &bytes[1..]))
}
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct UnionSelector(u8);
impl UnionSelector {
    pub fn new(s: u8) -> Result<Self, DecodeError> {
        if s <= MAX_UNION_SELECTOR { Ok(Self(s)) } else { Err(DecodeError::UnionSelectorInvalid(s)) }
    }
}
impl From<UnionSelector> for u8 {
    fn from(s: UnionSelector) -> u8 {
        s.0
    }
}
impl PartialEq<u8> for UnionSelector {
    fn eq(&self, o: &u8) -> bool {
        self.0 == *o
    }
}

pub fn sanitize_offset(
    offset: usize,
    previous_offset: Option<usize>,
    num_bytes: usize,
    num_fixed_bytes: Option<usize>,
) -> Result<usize, DecodeError> {
    if num_fixed_bytes.is_some_and(|n| offset < n) {
        Err(DecodeError::OffsetIntoFixedPortion(offset))
    } else if previous_offset.is_none() && num_fixed_bytes.is_some_and(|n| offset != n) {
        Err(DecodeError::OffsetSkipsVariableBytes(offset))
    } else if offset > num_bytes {
        Err(DecodeError::OffsetOutOfBounds(offset))
    } else if previous_offset.is_some_and(|p| p > offset) {
        Err(DecodeError::OffsetsAreDecreasing(offset))
    } else {
        Ok(offset)
    }
}

struct Offset {
    position: usize,
    offset: usize,
}
pub struct SszDecoderBuilder<'a> {
    bytes: &'a [u8],
    items: SmallVec<[&'a [u8]; 8]>,
    offsets: SmallVec<[Offset; 8]>,
    items_index: usize,
}
impl<'a> SszDecoderBuilder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Self { bytes, items: SmallVec::new(), offsets: SmallVec::new(), items_index: 0 }
    }
    pub fn register_anonymous_variable_length_item(&mut self) -> Result<(), DecodeError> {
        struct Anonymous;
        impl Decode for Anonymous {
            fn is_ssz_fixed_len() -> bool {
                false
            }
            fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
                unreachable!()
            }
        }
        self.register_type::<Anonymous>()
    }
    pub fn register_type<T: Decode>(&mut self) -> Result<(), DecodeError> {
        self.register_type_parameterized(T::is_ssz_fixed_len(), T::ssz_fixed_len())
    }
    pub fn register_type_parameterized(&mut self, fixed: bool, len: usize) -> Result<(), DecodeError> {
        if fixed {
            let start = self.items_index;
            self.items_index += len;
            let slice = self.bytes.get(start..self.items_index).ok_or(DecodeError::InvalidByteLength {
                len: self.bytes.len(),
                expected: self.items_index,
            })?;
            self.items.push(slice);
        } else {
            let raw = self.bytes.get(self.items_index..).ok_or(DecodeError::OutOfBoundsByte { i: self.items_index })?;
            self.offsets.push(Offset {
                position: self.items.len(),
                offset: sanitize_offset(
                    read_offset(raw)?,
                    self.offsets.last().map(|o| o.offset),
                    self.bytes.len(),
                    None,
                )?,
            });
            self.items.push(&[]);
            self.items_index += BYTES_PER_LENGTH_OFFSET;
        }
        Ok(())
    }
    fn finalize(&mut self) -> Result<(), DecodeError> {
        if let Some(first) = self.offsets.first().map(|o| o.offset) {
            if first < self.items_index {
                return Err(DecodeError::OffsetIntoFixedPortion(first));
            }
            if first > self.items_index {
                return Err(DecodeError::OffsetSkipsVariableBytes(first));
            }
            for i in 0..self.offsets.len() {
                let a = &self.offsets[i];
                let end = self.offsets.get(i + 1).map(|o| o.offset).unwrap_or(self.bytes.len());
                self.items[a.position] =
                    self.bytes.get(a.offset..end).ok_or(DecodeError::OutOfBoundsByte { i: end })?;
            }
        } else if self.items_index != self.bytes.len() {
            return Err(DecodeError::InvalidByteLength { len: self.bytes.len(), expected: self.items_index });
        }
        Ok(())
    }
    pub fn build(mut self) -> Result<SszDecoder<'a>, DecodeError> {
        self.finalize()?;
        Ok(SszDecoder { items: self.items })
    }
}
pub struct SszDecoder<'a> {
    items: SmallVec<[&'a [u8]; 8]>,
}
impl<'a> SszDecoder<'a> {
    pub fn decode_next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        self.decode_next_with(|s| T::from_ssz_bytes(s))
    }
    pub fn decode_next_with<T, F: FnOnce(&'a [u8]) -> Result<T, DecodeError>>(&mut self, f: F) -> Result<T, DecodeError> {
        f(self.items.remove(0))
    }
}

pub trait TryFromIter<T>: Sized {
    type Error;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Self::Error>;
}
impl<T> TryFromIter<T> for Vec<T> {
    type Error = core::convert::Infallible;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Self::Error> {
        Ok(iter.into_iter().collect())
    }
}

/// Decodes `bytes` as if it were a list of variable-length items.
pub fn decode_list_of_variable_length_items<T: Decode, C: TryFromIter<T>>(
    bytes: &[u8],
    max_len: Option<usize>,
) -> Result<C, DecodeError> {
    if bytes.is_empty() {
        return C::try_from_iter(std::iter::empty()).map_err(|_| DecodeError::BytesInvalid("Error trying to collect empty list".into()));
    }
    let first = sanitize_offset(read_offset(bytes)?, None, bytes.len(), None)?;
    if first % BYTES_PER_LENGTH_OFFSET != 0 || first < BYTES_PER_LENGTH_OFFSET {
        return Err(DecodeError::InvalidListFixedBytesLen(first));
    }
    let n = first / BYTES_PER_LENGTH_OFFSET;
    if let Some(m) = max_len {
        if n > m {
            return Err(DecodeError::BytesInvalid(format!("Variable length list of {n} items exceeds maximum of {m}")));
        }
    }
    let mut v = Vec::with_capacity(n);
    let mut offset = first;
    for i in 1..=n {
        let start = offset;
        let slice = if i == n {
            bytes.get(start..).ok_or(DecodeError::OutOfBoundsByte { i: start })?
        } else {
            offset = sanitize_offset(read_offset(&bytes[i * 4..])?, Some(offset), bytes.len(), Some(first))?;
            bytes.get(start..offset).ok_or(DecodeError::OutOfBoundsByte { i: offset })?
        };
        v.push(T::from_ssz_bytes(slice)?);
    }
    C::try_from_iter(v).map_err(|_| DecodeError::BytesInvalid("Error collecting into container".into()))
}

/// Encodes a sequence of items.
pub fn sequence_ssz_append<I, T>(iter: I, buf: &mut Vec<u8>)
where
    I: Iterator<Item = T> + ExactSizeIterator,
    T: Encode,
{
    if T::is_ssz_fixed_len() {
        for i in iter {
            i.ssz_append(buf);
        }
    } else {
        let mut e = SszEncoder::container(buf, iter.len() * BYTES_PER_LENGTH_OFFSET);
        for i in iter {
            e.append(&i);
        }
        e.finalize();
    }
}
pub fn sequence_ssz_bytes_len<'a, T: Encode + 'a>(items: impl ExactSizeIterator<Item = &'a T>) -> usize {
    if T::is_ssz_fixed_len() {
        T::ssz_fixed_len() * items.len()
    } else {
        items.map(|i| i.ssz_bytes_len() + BYTES_PER_LENGTH_OFFSET).sum()
    }
}
