use crate::Error;
use serde::{de::Error as _, Deserialize, Deserializer, Serialize};
use ssz::{Decode, DecodeError, Encode, TryFromIter};
use std::{
    marker::PhantomData,
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
};
use tree_hash::{mix_in_length, vec_tree_hash_root, Hash256, PackedEncoding, TreeHash, TreeHashType};
use typenum::Unsigned;

macro_rules! common {
    ($L:ident) => {
        #[derive(Clone, Serialize)]
        #[serde(transparent)]
        pub struct $L<T, N> {
            vec: Vec<T>,
            #[serde(skip)]
            _p: PhantomData<N>,
        }
        impl<T: std::fmt::Debug, N> std::fmt::Debug for $L<T, N> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_struct(stringify!($L)).field("vec", &self.vec).finish()
            }
        }
        impl<T: PartialEq, N> PartialEq for $L<T, N> {
            fn eq(&self, o: &Self) -> bool {
                self.vec == o.vec
            }
        }
        impl<T: Eq, N> Eq for $L<T, N> {}
        impl<T: std::hash::Hash, N> std::hash::Hash for $L<T, N> {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                self.vec.hash(h)
            }
        }
        impl<T: PartialOrd, N> PartialOrd for $L<T, N> {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                self.vec.partial_cmp(&o.vec)
            }
        }
        impl<T: Ord, N> Ord for $L<T, N> {
            fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                self.vec.cmp(&o.vec)
            }
        }
        impl<T, N: Unsigned, I: SliceIndex<[T]>> Index<I> for $L<T, N> {
            type Output = I::Output;
            fn index(&self, i: I) -> &Self::Output {
                &self.vec[i]
            }
        }
        impl<T, N: Unsigned, I: SliceIndex<[T]>> IndexMut<I> for $L<T, N> {
            fn index_mut(&mut self, i: I) -> &mut Self::Output {
                &mut self.vec[i]
            }
        }
        impl<T, N: Unsigned> Deref for $L<T, N> {
            type Target = [T];
            fn deref(&self) -> &[T] {
                &self.vec
            }
        }
        impl<T, N: Unsigned> DerefMut for $L<T, N> {
            fn deref_mut(&mut self) -> &mut [T] {
                &mut self.vec
            }
        }
        impl<T, N: Unsigned> AsRef<[T]> for $L<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.vec
            }
        }
        impl<'a, T, N: Unsigned> IntoIterator for &'a $L<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.vec.iter()
            }
        }
        impl<T, N: Unsigned> IntoIterator for $L<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.vec.into_iter()
            }
        }
        impl<T, N: Unsigned> From<$L<T, N>> for Vec<T> {
            fn from(l: $L<T, N>) -> Vec<T> {
                l.vec
            }
        }
        impl<T, N: Unsigned> $L<T, N> {
            pub fn as_slice(&self) -> &[T] {
                &self.vec
            }
        }
    };
}
common!(VariableList);
common!(FixedVector);

impl<T, N: Unsigned> VariableList<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() <= N::to_usize() {
            Ok(Self { vec, _p: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: N::to_usize() })
        }
    }
    pub fn empty() -> Self {
        Self { vec: vec![], _p: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.vec.is_empty()
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn push(&mut self, value: T) -> Result<(), Error> {
        if self.vec.len() < N::to_usize() {
            self.vec.push(value);
            Ok(())
        } else {
            Err(Error::OutOfBounds { i: self.vec.len() + 1, len: N::to_usize() })
        }
    }
    pub fn to_vec(&self) -> Vec<T>
    where
        T: Clone,
    {
        self.vec.clone()
    }
}
/// Lists that are too long are truncated, as in the original crate.
impl<T, N: Unsigned> From<Vec<T>> for VariableList<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.truncate(N::to_usize());
        Self { vec, _p: PhantomData }
    }
}
impl<T, N: Unsigned> Default for VariableList<T, N> {
    fn default() -> Self {
        Self::empty()
    }
}
impl<T, N: Unsigned> FromIterator<T> for VariableList<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self::from(iter.into_iter().collect::<Vec<_>>())
    }
}
impl<T, N: Unsigned> TryFromIter<T> for VariableList<T, N> {
    type Error = Error;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Error> {
        Self::new(iter.into_iter().collect())
    }
}
impl<T: Encode, N: Unsigned> Encode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.vec.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.vec.ssz_append(buf)
    }
}
impl<T: Decode, N: Unsigned> Decode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let max = N::to_usize();
        if bytes.is_empty() {
            return Ok(Self::empty());
        }
        if T::is_ssz_fixed_len() {
            let n = bytes.len().checked_div(T::ssz_fixed_len()).ok_or(DecodeError::ZeroLengthItem)?;
            if n > max {
                return Err(DecodeError::BytesInvalid(format!("VariableList of {n} items exceeds maximum of {max}")));
            }
            let vec = bytes.chunks(T::ssz_fixed_len()).map(T::from_ssz_bytes).collect::<Result<Vec<_>, _>>()?;
            Self::new(vec).map_err(|e| DecodeError::BytesInvalid(format!("{e:?}")))
        } else {
            ssz::decode_list_of_variable_length_items(bytes, Some(max))
        }
    }
}
impl<T: TreeHash, N: Unsigned> TreeHash for VariableList<T, N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::List
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("List should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        mix_in_length(&vec_tree_hash_root(&self.vec, N::to_usize()), self.vec.len())
    }
}
impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for VariableList<T, N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::new(Vec::deserialize(d)?).map_err(|e| D::Error::custom(format!("{e:?}")))
    }
}

impl<T, N: Unsigned> FixedVector<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() == N::to_usize() {
            Ok(Self { vec, _p: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: N::to_usize() })
        }
    }
    pub fn from_elem(elem: T) -> Self
    where
        T: Clone,
    {
        Self { vec: vec![elem; N::to_usize()], _p: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.vec.len()
    }
    pub fn is_empty(&self) -> bool {
        self.vec.is_empty()
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn to_vec(&self) -> Vec<T>
    where
        T: Clone,
    {
        self.vec.clone()
    }
}
/// Padded with defaults or truncated to the fixed length, as in the original crate.
impl<T: Default, N: Unsigned> From<Vec<T>> for FixedVector<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.resize_with(N::to_usize(), Default::default);
        Self { vec, _p: PhantomData }
    }
}
impl<T: Default, N: Unsigned> Default for FixedVector<T, N> {
    fn default() -> Self {
        Self { vec: (0..N::to_usize()).map(|_| T::default()).collect(), _p: PhantomData }
    }
}
impl<T, N: Unsigned> TryFromIter<T> for FixedVector<T, N> {
    type Error = Error;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, Error> {
        Self::new(iter.into_iter().collect())
    }
}
impl<T: Encode, N: Unsigned> Encode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if T::is_ssz_fixed_len() { T::ssz_fixed_len() * N::to_usize() } else { ssz::BYTES_PER_LENGTH_OFFSET }
    }
    fn ssz_bytes_len(&self) -> usize {
        self.vec.ssz_bytes_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.vec.ssz_append(buf)
    }
}
impl<T: Decode, N: Unsigned> Decode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if T::is_ssz_fixed_len() { T::ssz_fixed_len() * N::to_usize() } else { ssz::BYTES_PER_LENGTH_OFFSET }
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let n = N::to_usize();
        let vec: Vec<T> = if bytes.is_empty() {
            return Err(DecodeError::InvalidByteLength { len: 0, expected: 1 });
        } else if T::is_ssz_fixed_len() {
            let items = bytes.len().checked_div(T::ssz_fixed_len()).ok_or(DecodeError::ZeroLengthItem)?;
            if items != n {
                return Err(DecodeError::BytesInvalid(format!("FixedVector of {items} items has {n} items")));
            }
            bytes.chunks(T::ssz_fixed_len()).map(T::from_ssz_bytes).collect::<Result<_, _>>()?
        } else {
            ssz::decode_list_of_variable_length_items(bytes, Some(n))?
        };
        Self::new(vec).map_err(|e| DecodeError::BytesInvalid(format!("Wrong number of FixedVector elements: {e:?}")))
    }
}
impl<T: TreeHash, N: Unsigned> TreeHash for FixedVector<T, N> {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("Vector should never be packed.")
    }
    fn tree_hash_root(&self) -> Hash256 {
        vec_tree_hash_root(&self.vec, N::to_usize())
    }
}
impl<'de, T: Deserialize<'de>, N: Unsigned> Deserialize<'de> for FixedVector<T, N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Self::new(Vec::deserialize(d)?).map_err(|e| D::Error::custom(format!("{e:?}")))
    }
}
