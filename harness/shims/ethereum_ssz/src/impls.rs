use crate::*;
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use std::sync::Arc;

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { core::mem::size_of::<$t>() }
            fn ssz_bytes_len(&self) -> usize { core::mem::size_of::<$t>() }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.to_le_bytes()) }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { core::mem::size_of::<$t>() }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                let a = bytes.try_into().map_err(|_| DecodeError::InvalidByteLength {
                    len: bytes.len(), expected: core::mem::size_of::<$t>() })?;
                Ok(<$t>::from_le_bytes(a))
            }
        }
    )*}
}
uint!(u8, u16, u32, u64, usize);

impl Encode for bool {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn ssz_bytes_len(&self) -> usize {
        1
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.push(*self as u8)
    }
}
impl Decode for bool {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        1
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        match bytes {
            [0] => Ok(false),
            [1] => Ok(true),
            [b] => Err(DecodeError::BytesInvalid(format!("Out-of-range for boolean: {b}"))),
            _ => Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: 1 }),
        }
    }
}

macro_rules! fixed {
    ([$($g:tt)*] $t:ty, $n:expr, |$s:ident| $as:expr, |$b:ident| $from:expr) => {
        impl<$($g)*> Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_bytes_len(&self) -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { let $s = self; buf.extend_from_slice($as) }
        }
        impl<$($g)*> Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                if bytes.len() != $n {
                    return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: $n });
                }
                let $b = bytes;
                Ok($from)
            }
        }
    };
}
fixed!([const N: usize] [u8; N], N, |s| &s[..], |b| b.try_into().unwrap());
fixed!([const N: usize] FixedBytes<N>, N, |s| s.as_slice(), |b| FixedBytes::from_slice(b));
fixed!([] Address, 20, |s| s.as_slice(), |b| Address::from_slice(b));
fixed!([] Bloom, 256, |s| s.as_slice(), |b| Bloom::from_slice(b));
fixed!([] U256, 32, |s| s.as_le_slice(), |b| U256::from_le_slice(b));
fixed!([] U128, 16, |s| s.as_le_slice(), |b| U128::from_le_slice(b));

impl Encode for Bytes {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(self)
    }
}
impl Decode for Bytes {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(bytes.to_vec().into())
    }
}

impl<T: Encode> Encode for Vec<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        sequence_ssz_bytes_len(self.iter())
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        sequence_ssz_append(self.iter(), buf)
    }
}
impl<T: Encode, const N: usize> Encode for smallvec::SmallVec<[T; N]>
where
    [T; N]: smallvec::Array<Item = T>,
{
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        sequence_ssz_bytes_len(self.iter())
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        sequence_ssz_append(self.iter(), buf)
    }
}
impl<T: Decode> Decode for Vec<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.is_empty() {
            Ok(vec![])
        } else if T::is_ssz_fixed_len() {
            bytes.chunks(T::ssz_fixed_len()).map(T::from_ssz_bytes).collect()
        } else {
            decode_list_of_variable_length_items(bytes, None)
        }
    }
}
macro_rules! deref {
    ($($t:ty),*) => {$(
        impl<T: Encode> Encode for $t {
            fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
            fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
            fn ssz_bytes_len(&self) -> usize { (**self).ssz_bytes_len() }
            fn ssz_append(&self, buf: &mut Vec<u8>) { (**self).ssz_append(buf) }
        }
    )*}
}
deref!(&T, Arc<T>, Box<T>);
impl<T: Decode> Decode for Arc<T> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        T::from_ssz_bytes(bytes).map(Arc::new)
    }
}
impl<T: Encode> Encode for Option<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        1 + self.as_ref().map_or(0, |v| v.ssz_bytes_len())
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            None => buf.push(0),
            Some(v) => {
                buf.push(1);
                v.ssz_append(buf)
            }
        }
    }
}
impl<T: Decode> Decode for Option<T> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let (s, body) = split_union_bytes(bytes)?;
        match s.into() {
            0u8 => Ok(None),
            1u8 => T::from_ssz_bytes(body).map(Some),
            o => Err(DecodeError::UnionSelectorInvalid(o)),
        }
    }
}
macro_rules! tuple {
    ($($T:ident $i:tt),*) => {
        impl<$($T: Encode),*> Encode for ($($T,)*) {
            fn is_ssz_fixed_len() -> bool { true $(&& $T::is_ssz_fixed_len())* }
            fn ssz_fixed_len() -> usize {
                if <Self as Encode>::is_ssz_fixed_len() { 0 $(+ $T::ssz_fixed_len())* } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn ssz_bytes_len(&self) -> usize {
                if <Self as Encode>::is_ssz_fixed_len() { <Self as Encode>::ssz_fixed_len() } else {
                    let mut n = 0;
                    $( n += if $T::is_ssz_fixed_len() { $T::ssz_fixed_len() } else { BYTES_PER_LENGTH_OFFSET + self.$i.ssz_bytes_len() }; )*
                    n
                }
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let off = 0 $(+ $T::ssz_fixed_len())*;
                let mut e = SszEncoder::container(buf, off);
                $( e.append(&self.$i); )*
                e.finalize();
            }
        }
        impl<$($T: Decode),*> Decode for ($($T,)*) {
            fn is_ssz_fixed_len() -> bool { true $(&& $T::is_ssz_fixed_len())* }
            fn ssz_fixed_len() -> usize {
                if <Self as Decode>::is_ssz_fixed_len() { 0 $(+ $T::ssz_fixed_len())* } else { BYTES_PER_LENGTH_OFFSET }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                let mut b = SszDecoderBuilder::new(bytes);
                $( b.register_type::<$T>()?; )*
                let mut d = b.build()?;
                Ok(($( d.decode_next::<$T>()?, )*))
            }
        }
    }
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
