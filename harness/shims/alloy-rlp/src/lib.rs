//! RLP with the interface of the `alloy-rlp` crate.
extern crate alloc;

pub use alloy_rlp_derive::{
    RlpDecodable, RlpDecodableWrapper, RlpEncodable, RlpEncodableWrapper, RlpMaxEncodedLen,
};
pub use bytes::{self, Buf, BufMut, Bytes, BytesMut};

pub const EMPTY_STRING_CODE: u8 = 0x80;
pub const EMPTY_LIST_CODE: u8 = 0xC0;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Error {
    Overflow,
    LeadingZero,
    InputTooShort,
    NonCanonicalSingleByte,
    NonCanonicalSize,
    UnexpectedLength,
    UnexpectedString,
    UnexpectedList,
    ListLengthMismatch { expected: usize, got: usize },
    Custom(&'static str),
}
pub type Result<T, E = Error> = core::result::Result<T, E>;

impl std::error::Error for Error {}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        match self {
            Self::Overflow => f.write_str("overflow"),
            Self::LeadingZero => f.write_str("leading zero"),
            Self::InputTooShort => f.write_str("input too short"),
            Self::NonCanonicalSingleByte => f.write_str("non-canonical single byte"),
            Self::NonCanonicalSize => f.write_str("non-canonical size"),
            Self::UnexpectedLength => f.write_str("unexpected length"),
            Self::UnexpectedString => f.write_str("unexpected string"),
            Self::UnexpectedList => f.write_str("unexpected list"),
            Self::ListLengthMismatch { got, expected } => {
                write!(f, "unexpected list length (got {got}, expected {expected})")
            }
            Self::Custom(err) => f.write_str(err),
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Header {
    pub list: bool,
    pub payload_length: usize,
}

fn get(buf: &[u8], n: usize) -> Result<&[u8]> {
    buf.get(..n).ok_or(Error::InputTooShort)
}

impl Header {
    pub fn decode(buf: &mut &[u8]) -> Result<Self> {
        let b = *buf.first().ok_or(Error::InputTooShort)?;
        let (list, payload_length) = match b {
            0..=0x7f => (false, 1),
            0x80..=0xb7 => {
                buf.advance(1);
                let n = (b - 0x80) as usize;
                if n == 1 && *buf.first().ok_or(Error::InputTooShort)? < 0x80 {
                    return Err(Error::NonCanonicalSingleByte);
                }
                (false, n)
            }
            0xc0..=0xf7 => {
                buf.advance(1);
                (true, (b - 0xc0) as usize)
            }
            _ => {
                buf.advance(1);
                let list = b >= 0xf8;
                let lol = (if list { b - 0xf7 } else { b - 0xb7 }) as usize;
                if lol > 8 {
                    return Err(Error::Overflow);
                }
                let lb = get(buf, lol)?;
                if lb[0] == 0 {
                    return Err(Error::LeadingZero);
                }
                let mut n = 0usize;
                for x in lb {
                    n = (n << 8) | *x as usize;
                }
                buf.advance(lol);
                if n < 56 {
                    return Err(Error::NonCanonicalSize);
                }
                (list, n)
            }
        };
        if buf.len() < payload_length {
            return Err(Error::InputTooShort);
        }
        Ok(Self { list, payload_length })
    }

    pub fn decode_bytes<'a>(buf: &mut &'a [u8], is_list: bool) -> Result<&'a [u8]> {
        let Self { list, payload_length } = Self::decode(buf)?;
        if list != is_list {
            return Err(if is_list { Error::UnexpectedString } else { Error::UnexpectedList });
        }
        let (a, b) = buf.split_at(payload_length);
        *buf = b;
        Ok(a)
    }

    pub fn decode_str<'a>(buf: &mut &'a [u8]) -> Result<&'a str> {
        core::str::from_utf8(Self::decode_bytes(buf, false)?).map_err(|_| Error::Custom("invalid string"))
    }

    pub fn decode_raw<'a>(buf: &mut &'a [u8]) -> Result<PayloadView<'a>> {
        let Self { list, payload_length } = Self::decode(buf)?;
        let (mut payload, rest) = buf.split_at(payload_length);
        *buf = rest;
        if !list {
            return Ok(PayloadView::String(payload));
        }
        let mut items = vec![];
        while !payload.is_empty() {
            let start = payload;
            let h = Self::decode(&mut payload)?;
            let consumed = start.len() - payload.len() + h.payload_length;
            items.push(&start[..consumed]);
            payload = &start[consumed..];
        }
        Ok(PayloadView::List(items))
    }

    pub fn encode(&self, out: &mut dyn BufMut) {
        if self.payload_length < 56 {
            let c = if self.list { EMPTY_LIST_CODE } else { EMPTY_STRING_CODE };
            out.put_u8(c + self.payload_length as u8);
        } else {
            let be = self.payload_length.to_be_bytes();
            let be = &be[(self.payload_length.leading_zeros() / 8) as usize..];
            let c = if self.list { 0xF7 } else { 0xB7 };
            out.put_u8(c + be.len() as u8);
            out.put_slice(be);
        }
    }
    pub const fn length(&self) -> usize {
        length_of_length(self.payload_length)
    }
    pub const fn length_with_payload(&self) -> usize {
        self.length() + self.payload_length
    }
}

#[derive(Debug)]
pub enum PayloadView<'a> {
    String(&'a [u8]),
    List(Vec<&'a [u8]>),
}

pub const fn length_of_length(payload_length: usize) -> usize {
    if payload_length < 56 {
        1
    } else {
        1 + (usize::BITS as usize / 8) - payload_length.leading_zeros() as usize / 8
    }
}

pub trait Encodable {
    fn encode(&self, out: &mut dyn BufMut);
    fn length(&self) -> usize {
        let mut v = Vec::new();
        self.encode(&mut v);
        v.len()
    }
}
pub trait Decodable: Sized {
    fn decode(buf: &mut &[u8]) -> Result<Self>;
}
/// # Safety
/// The length must be an upper bound.
pub unsafe trait MaxEncodedLen<const LEN: usize>: Encodable {}
/// # Safety
/// The length must be an upper bound.
pub unsafe trait MaxEncodedLenAssoc: Encodable {
    const LEN: usize;
}
#[macro_export]
macro_rules! impl_max_encoded_len {
    ($t:ty, $len:expr) => {
        unsafe impl $crate::MaxEncodedLen<{ $len }> for $t {}
        unsafe impl $crate::MaxEncodedLenAssoc for $t {
            const LEN: usize = $len;
        }
    };
}

impl Encodable for [u8] {
    fn encode(&self, out: &mut dyn BufMut) {
        if self.len() != 1 || self[0] >= EMPTY_STRING_CODE {
            Header { list: false, payload_length: self.len() }.encode(out);
        }
        out.put_slice(self);
    }
    fn length(&self) -> usize {
        let mut len = self.len();
        if len != 1 || self[0] >= EMPTY_STRING_CODE {
            len += length_of_length(len);
        }
        len
    }
}
impl<const N: usize> Encodable for [u8; N] {
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
    fn length(&self) -> usize {
        self[..].length()
    }
}
impl Encodable for str {
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
}
impl Encodable for String {
    fn encode(&self, out: &mut dyn BufMut) {
        self.as_bytes().encode(out)
    }
    fn length(&self) -> usize {
        self.as_bytes().length()
    }
}
impl Encodable for Bytes {
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
    fn length(&self) -> usize {
        self[..].length()
    }
}
impl Encodable for BytesMut {
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
    fn length(&self) -> usize {
        self[..].length()
    }
}
impl Encodable for bool {
    fn encode(&self, out: &mut dyn BufMut) {
        out.put_u8(if *self { 1 } else { EMPTY_STRING_CODE })
    }
    fn length(&self) -> usize {
        1
    }
}
macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Encodable for $t {
            fn encode(&self, out: &mut dyn BufMut) {
                let x = *self;
                if x == 0 {
                    out.put_u8(EMPTY_STRING_CODE);
                } else if x < 0x80 {
                    out.put_u8(x as u8);
                } else {
                    let be = x.to_be_bytes();
                    let be = &be[(x.leading_zeros() / 8) as usize..];
                    out.put_u8(EMPTY_STRING_CODE + be.len() as u8);
                    out.put_slice(be);
                }
            }
            fn length(&self) -> usize {
                let x = *self;
                if x < 0x80 { 1 } else { 1 + (<$t>::BITS as usize / 8) - (x.leading_zeros() as usize / 8) }
            }
        }
        impl Decodable for $t {
            fn decode(buf: &mut &[u8]) -> Result<Self> {
                let b = Header::decode_bytes(buf, false)?;
                const N: usize = core::mem::size_of::<$t>();
                if b.len() > N { return Err(Error::Overflow); }
                if !b.is_empty() && b[0] == 0 { return Err(Error::LeadingZero); }
                let mut a = [0u8; N];
                a[N - b.len()..].copy_from_slice(b);
                Ok(<$t>::from_be_bytes(a))
            }
        }
        impl_max_encoded_len!($t, { let n = core::mem::size_of::<$t>(); n + length_of_length(n) });
    )*}
}
uint!(u8, u16, u32, u64, usize, u128);

impl Decodable for bool {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Ok(match u8::decode(buf)? {
            0 => false,
            1 => true,
            _ => return Err(Error::Custom("invalid bool value, must be 0 or 1")),
        })
    }
}
impl<const N: usize> Decodable for [u8; N] {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false)?.try_into().map_err(|_| Error::UnexpectedLength)
    }
}
impl Decodable for Bytes {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(Bytes::copy_from_slice)
    }
}
impl Decodable for BytesMut {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_bytes(buf, false).map(BytesMut::from)
    }
}
impl Decodable for String {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        Header::decode_str(buf).map(Into::into)
    }
}
impl<T: Decodable> Decodable for Vec<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let mut bytes = Header::decode_bytes(buf, true)?;
        let mut v = Vec::new();
        while !bytes.is_empty() {
            v.push(T::decode(&mut bytes)?);
        }
        Ok(v)
    }
}
impl<T: Encodable> Encodable for Vec<T> {
    fn encode(&self, out: &mut dyn BufMut) {
        encode_list(self, out)
    }
    fn length(&self) -> usize {
        list_length(self)
    }
}
macro_rules! deref {
    ($($(#[$a:meta])* $t:ty),*) => {$(
        impl<T: ?Sized + Encodable> Encodable for $t {
            fn encode(&self, out: &mut dyn BufMut) { (**self).encode(out) }
            fn length(&self) -> usize { (**self).length() }
        }
    )*}
}
deref!(&T, &mut T, Box<T>, std::sync::Arc<T>, std::rc::Rc<T>);
impl<T: Decodable> Decodable for Box<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        T::decode(buf).map(Box::new)
    }
}
impl<T: Decodable> Decodable for std::sync::Arc<T> {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        T::decode(buf).map(std::sync::Arc::new)
    }
}

fn rlp_list_header<E: Encodable, K: core::borrow::Borrow<E>>(xs: &[K]) -> Header {
    Header { list: true, payload_length: xs.iter().map(|x| x.borrow().length()).sum() }
}
pub fn list_length<E: Encodable>(xs: &[E]) -> usize {
    rlp_list_header::<E, E>(xs).length_with_payload()
}
pub fn encode_list<B: core::borrow::Borrow<E>, E: ?Sized + Encodable>(values: &[B], out: &mut dyn BufMut) {
    let payload_length = values.iter().map(|x| x.borrow().length()).sum();
    Header { list: true, payload_length }.encode(out);
    for v in values {
        v.borrow().encode(out);
    }
}
pub fn encode<T: Encodable>(value: T) -> Vec<u8> {
    let mut out = Vec::with_capacity(value.length());
    value.encode(&mut out);
    out
}
pub fn decode_exact<T: Decodable>(bytes: impl AsRef<[u8]>) -> Result<T> {
    let mut buf = bytes.as_ref();
    let out = T::decode(&mut buf)?;
    if !buf.is_empty() {
        return Err(Error::UnexpectedLength);
    }
    Ok(out)
}
