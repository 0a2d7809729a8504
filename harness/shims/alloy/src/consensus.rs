use crate::eips::{eip4895::{Withdrawal, Withdrawals}, Decodable2718, Eip2718Error, Encodable2718};
use alloy_primitives::{b256, keccak256, Address, Bloom, Bytes, B256, B64, U256};
use alloy_rlp::{BufMut, Decodable, Encodable, Header as RlpHeader};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub const EMPTY_OMMER_ROOT_HASH: B256 = b256!("0x1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347");
pub const EMPTY_ROOT_HASH: B256 = b256!("0x56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421");
pub mod constants {
    pub use super::{EMPTY_OMMER_ROOT_HASH, EMPTY_ROOT_HASH};
    pub use alloy_primitives::KECCAK256_EMPTY as KECCAK_EMPTY;
}

mod q {
    use serde::{de::Error, Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u64, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{v:x}"))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        let s = String::deserialize(d)?;
        u64::from_str_radix(s.trim_start_matches("0x"), 16).map_err(D::Error::custom)
    }
    pub mod opt {
        use super::*;
        pub fn serialize<S: Serializer>(v: &Option<u64>, s: S) -> Result<S::Ok, S::Error> {
            match v {
                Some(v) => s.serialize_str(&format!("0x{v:x}")),
                None => s.serialize_none(),
            }
        }
        pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<u64>, D::Error> {
            let s = Option::<String>::deserialize(d)?;
            s.map(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).map_err(D::Error::custom)).transpose()
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Header {
    pub parent_hash: B256,
    #[serde(rename = "sha3Uncles")]
    pub ommers_hash: B256,
    #[serde(rename = "miner")]
    pub beneficiary: Address,
    pub state_root: B256,
    pub transactions_root: B256,
    pub receipts_root: B256,
    pub logs_bloom: Bloom,
    pub difficulty: U256,
    #[serde(with = "q")]
    pub number: u64,
    #[serde(with = "q")]
    pub gas_limit: u64,
    #[serde(with = "q")]
    pub gas_used: u64,
    #[serde(with = "q")]
    pub timestamp: u64,
    pub extra_data: Bytes,
    pub mix_hash: B256,
    pub nonce: B64,
    #[serde(default, with = "q::opt", skip_serializing_if = "Option::is_none")]
    pub base_fee_per_gas: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub withdrawals_root: Option<B256>,
    #[serde(default, with = "q::opt", skip_serializing_if = "Option::is_none")]
    pub blob_gas_used: Option<u64>,
    #[serde(default, with = "q::opt", skip_serializing_if = "Option::is_none")]
    pub excess_blob_gas: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent_beacon_block_root: Option<B256>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub requests_hash: Option<B256>,
}
impl Default for Header {
    fn default() -> Self {
        Header {
            parent_hash: B256::ZERO,
            ommers_hash: EMPTY_OMMER_ROOT_HASH,
            beneficiary: Address::ZERO,
            state_root: EMPTY_ROOT_HASH,
            transactions_root: EMPTY_ROOT_HASH,
            receipts_root: EMPTY_ROOT_HASH,
            logs_bloom: Bloom::default(),
            difficulty: U256::ZERO,
            number: 0,
            gas_limit: 0,
            gas_used: 0,
            timestamp: 0,
            extra_data: Bytes::default(),
            mix_hash: B256::ZERO,
            nonce: B64::ZERO,
            base_fee_per_gas: None,
            withdrawals_root: None,
            blob_gas_used: None,
            excess_blob_gas: None,
            parent_beacon_block_root: None,
            requests_hash: None,
        }
    }
}
impl Header {
    pub fn hash_slow(&self) -> B256 {
        keccak256(alloy_rlp::encode(self))
    }
    fn payload(&self) -> Vec<u8> {
        let mut o = vec![];
        let out: &mut dyn BufMut = &mut o;
        self.parent_hash.encode(out);
        self.ommers_hash.encode(out);
        self.beneficiary.encode(out);
        self.state_root.encode(out);
        self.transactions_root.encode(out);
        self.receipts_root.encode(out);
        self.logs_bloom.encode(out);
        self.difficulty.encode(out);
        self.number.encode(out);
        self.gas_limit.encode(out);
        self.gas_used.encode(out);
        self.timestamp.encode(out);
        self.extra_data.encode(out);
        self.mix_hash.encode(out);
        self.nonce.encode(out);
        if let Some(v) = &self.base_fee_per_gas {
            v.encode(out);
        }
        if let Some(v) = &self.withdrawals_root {
            v.encode(out);
        }
        if let Some(v) = &self.blob_gas_used {
            v.encode(out);
        }
        if let Some(v) = &self.excess_blob_gas {
            v.encode(out);
        }
        if let Some(v) = &self.parent_beacon_block_root {
            v.encode(out);
        }
        if let Some(v) = &self.requests_hash {
            v.encode(out);
        }
        o
    }
}
impl Encodable for Header {
    fn encode(&self, out: &mut dyn BufMut) {
        let p = self.payload();
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let n = self.payload().len();
        n + alloy_rlp::length_of_length(n)
    }
}
impl Decodable for Header {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let mut b = RlpHeader::decode_bytes(buf, true)?;
        let b = &mut b;
        let mut h = Header {
            parent_hash: Decodable::decode(b)?,
            ommers_hash: Decodable::decode(b)?,
            beneficiary: Decodable::decode(b)?,
            state_root: Decodable::decode(b)?,
            transactions_root: Decodable::decode(b)?,
            receipts_root: Decodable::decode(b)?,
            logs_bloom: Decodable::decode(b)?,
            difficulty: Decodable::decode(b)?,
            number: Decodable::decode(b)?,
            gas_limit: Decodable::decode(b)?,
            gas_used: Decodable::decode(b)?,
            timestamp: Decodable::decode(b)?,
            extra_data: Decodable::decode(b)?,
            mix_hash: Decodable::decode(b)?,
            nonce: Decodable::decode(b)?,
            base_fee_per_gas: None,
            withdrawals_root: None,
            blob_gas_used: None,
            excess_blob_gas: None,
            parent_beacon_block_root: None,
            requests_hash: None,
        };
        if !b.is_empty() {
            h.base_fee_per_gas = Some(Decodable::decode(b)?);
        }
        if !b.is_empty() {
            h.withdrawals_root = Some(Decodable::decode(b)?);
        }
        if !b.is_empty() {
            h.blob_gas_used = Some(Decodable::decode(b)?);
        }
        if !b.is_empty() {
            h.excess_blob_gas = Some(Decodable::decode(b)?);
        }
        if !b.is_empty() {
            h.parent_beacon_block_root = Some(Decodable::decode(b)?);
        }
        if !b.is_empty() {
            h.requests_hash = Some(Decodable::decode(b)?);
        }
        if !b.is_empty() {
            return Err(alloy_rlp::Error::UnexpectedLength);
        }
        Ok(h)
    }
}

/// A typed envelope around an RLP list; the fields inside are not interpreted.
macro_rules! envelope {
    ($n:ident, $legacy:expr, $typed:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct $n {
            ty: u8,
            list: Vec<u8>,
        }
        impl $n {
            pub fn new(ty: u8, list: Vec<u8>) -> Self {
                Self { ty, list }
            }
            fn take_list(buf: &mut &[u8], fields: &[usize]) -> alloy_rlp::Result<Vec<u8>> {
                let start = *buf;
                let mut items = RlpHeader::decode_bytes(buf, true)?;
                let list = start[..start.len() - buf.len()].to_vec();
                let mut n = 0;
                while !items.is_empty() {
                    let h = RlpHeader::decode(&mut items)?;
                    if items.len() < h.payload_length {
                        return Err(alloy_rlp::Error::InputTooShort);
                    }
                    items = &items[h.payload_length..];
                    n += 1;
                }
                if !fields.contains(&n) {
                    return Err(alloy_rlp::Error::ListLengthMismatch { expected: fields[0], got: n });
                }
                Ok(list)
            }
        }
        impl Encodable2718 for $n {
            fn encode_2718(&self, out: &mut dyn BufMut) {
                if self.ty != 0 {
                    out.put_u8(self.ty);
                }
                out.put_slice(&self.list);
            }
            fn encode_2718_len(&self) -> usize {
                self.list.len() + (self.ty != 0) as usize
            }
        }
        impl Decodable2718 for $n {
            fn decode_2718(buf: &mut &[u8]) -> Result<Self, Eip2718Error> {
                let first = *buf.first().ok_or(alloy_rlp::Error::InputTooShort)?;
                if first >= 0xc0 {
                    return Ok(Self { ty: 0, list: Self::take_list(buf, &$legacy)? });
                }
                if !(1..=4).contains(&first) {
                    return Err(Eip2718Error::UnexpectedType(first));
                }
                *buf = &buf[1..];
                Ok(Self { ty: first, list: Self::take_list(buf, &$typed)? })
            }
        }
        impl Encodable for $n {
            fn encode(&self, out: &mut dyn BufMut) {
                let e = self.encoded_2718();
                if self.ty != 0 {
                    RlpHeader { list: false, payload_length: e.len() }.encode(out);
                }
                out.put_slice(&e);
            }
            fn length(&self) -> usize {
                let n = self.encode_2718_len();
                if self.ty != 0 { n + alloy_rlp::length_of_length(n) } else { n }
            }
        }
        impl Decodable for $n {
            fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
                let first = *buf.first().ok_or(alloy_rlp::Error::InputTooShort)?;
                let bad = |_| alloy_rlp::Error::Custom("unexpected tx type");
                if first >= 0xc0 {
                    return Self::decode_2718(buf).map_err(bad);
                }
                if (1..=4).contains(&first) {
                    return Self::decode_2718(buf).map_err(bad);
                }
                let mut inner = RlpHeader::decode_bytes(buf, false)?;
                let v = Self::decode_2718(&mut inner).map_err(bad)?;
                if !inner.is_empty() {
                    return Err(alloy_rlp::Error::UnexpectedLength);
                }
                Ok(v)
            }
        }
        impl Serialize for $n {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&format!("0x{}", hex::encode(self.encoded_2718())))
            }
        }
        impl<'de> Deserialize<'de> for $n {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                use serde::de::Error;
                let s = String::deserialize(d)?;
                let b = hex::decode(s.trim_start_matches("0x")).map_err(D::Error::custom)?;
                Self::decode_2718(&mut &b[..]).map_err(D::Error::custom)
            }
        }
    };
}
envelope!(TxEnvelope, [9], [11, 12, 13, 14]);
envelope!(ReceiptEnvelope, [4], [4]);

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BlockBody<T, H = Header> {
    pub transactions: Vec<T>,
    pub ommers: Vec<H>,
    pub withdrawals: Option<Withdrawals>,
}
impl<T, H> Default for BlockBody<T, H> {
    fn default() -> Self {
        Self { transactions: vec![], ommers: vec![], withdrawals: None }
    }
}
impl<T, H: Encodable> BlockBody<T, H> {
    pub fn calculate_ommers_root(&self) -> B256 {
        proofs::calculate_ommers_root(&self.ommers)
    }
    pub fn calculate_withdrawals_root(&self) -> Option<B256> {
        self.withdrawals.as_ref().map(|w| proofs::calculate_withdrawals_root(w))
    }
    pub fn transactions(&self) -> impl Iterator<Item = &T> + '_ {
        self.transactions.iter()
    }
}
impl<T: Encodable, H: Encodable> BlockBody<T, H> {
    fn payload(&self) -> Vec<u8> {
        let mut o = vec![];
        self.transactions.encode(&mut o);
        self.ommers.encode(&mut o);
        if let Some(w) = &self.withdrawals {
            w.encode(&mut o);
        }
        o
    }
}
impl<T: Encodable, H: Encodable> Encodable for BlockBody<T, H> {
    fn encode(&self, out: &mut dyn BufMut) {
        let p = self.payload();
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let n = self.payload().len();
        n + alloy_rlp::length_of_length(n)
    }
}
impl<T: Decodable, H: Decodable> Decodable for BlockBody<T, H> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let mut b = RlpHeader::decode_bytes(buf, true)?;
        let v = Self {
            transactions: Decodable::decode(&mut b)?,
            ommers: Decodable::decode(&mut b)?,
            withdrawals: if b.is_empty() { None } else { Some(Decodable::decode(&mut b)?) },
        };
        if !b.is_empty() {
            return Err(alloy_rlp::Error::UnexpectedLength);
        }
        Ok(v)
    }
}
pub mod proofs {
    use super::*;
    pub fn calculate_transaction_root<T: Encodable2718>(txs: &[T]) -> B256 {
        eth_trie::ordered_root(txs.iter().map(|t| t.encoded_2718()))
    }
    pub fn calculate_receipt_root<T: Encodable2718>(r: &[T]) -> B256 {
        eth_trie::ordered_root(r.iter().map(|t| t.encoded_2718()))
    }
    pub fn calculate_withdrawals_root(w: &[Withdrawal]) -> B256 {
        eth_trie::ordered_root(w.iter().map(alloy_rlp::encode))
    }
    pub fn calculate_ommers_root<H: Encodable>(o: &[H]) -> B256 {
        let mut payload = vec![];
        for h in o {
            h.encode(&mut payload);
        }
        let mut out = vec![];
        RlpHeader { list: true, payload_length: payload.len() }.encode(&mut out);
        out.extend(payload);
        keccak256(out)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
#[repr(u8)]
pub enum TxType {
    #[default]
    Legacy = 0,
    Eip2930 = 1,
    Eip1559 = 2,
    Eip4844 = 3,
    Eip7702 = 4,
}
impl TryFrom<u8> for TxType {
    type Error = Eip2718Error;
    fn try_from(v: u8) -> Result<Self, Eip2718Error> {
        Ok(match v {
            0 => Self::Legacy,
            1 => Self::Eip2930,
            2 => Self::Eip1559,
            3 => Self::Eip4844,
            4 => Self::Eip7702,
            t => return Err(Eip2718Error::UnexpectedType(t)),
        })
    }
}
impl Encodable for TxType {
    fn encode(&self, out: &mut dyn BufMut) {
        (*self as u8).encode(out)
    }
    fn length(&self) -> usize {
        1
    }
}
impl Decodable for TxType {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        u8::decode(buf)?.try_into().map_err(|_| alloy_rlp::Error::Custom("invalid tx type"))
    }
}
/// Status flag or, before Byzantium, the post-state root.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Eip658Value {
    Eip658(bool),
    PostState(B256),
}
impl Default for Eip658Value {
    fn default() -> Self {
        Self::Eip658(true)
    }
}
impl From<bool> for Eip658Value {
    fn from(b: bool) -> Self {
        Self::Eip658(b)
    }
}
impl Encodable for Eip658Value {
    fn encode(&self, out: &mut dyn BufMut) {
        match self {
            Self::Eip658(b) => b.encode(out),
            Self::PostState(r) => r.encode(out),
        }
    }
    fn length(&self) -> usize {
        match self {
            Self::Eip658(b) => b.length(),
            Self::PostState(r) => r.length(),
        }
    }
}
impl Decodable for Eip658Value {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let h = RlpHeader::decode(buf)?;
        if buf.len() < h.payload_length {
            return Err(alloy_rlp::Error::InputTooShort);
        }
        match h.payload_length {
            0 => Ok(Self::Eip658(false)),
            1 => {
                let v = buf[0] == 1;
                *buf = &buf[1..];
                Ok(Self::Eip658(v))
            }
            32 => {
                let r = B256::from_slice(&buf[..32]);
                *buf = &buf[32..];
                Ok(Self::PostState(r))
            }
            _ => Err(alloy_rlp::Error::UnexpectedLength),
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Log {
    pub address: Address,
    pub topics: Vec<B256>,
    pub data: Bytes,
}
impl Encodable for Log {
    fn encode(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        self.address.encode(&mut p);
        self.topics.encode(&mut p);
        self.data.encode(&mut p);
        RlpHeader { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let n = self.address.length() + self.topics.length() + self.data.length();
        n + alloy_rlp::length_of_length(n)
    }
}
impl Decodable for Log {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        let mut b = RlpHeader::decode_bytes(buf, true)?;
        let l = Self { address: Decodable::decode(&mut b)?, topics: Decodable::decode(&mut b)?, data: Decodable::decode(&mut b)? };
        if b.is_empty() { Ok(l) } else { Err(alloy_rlp::Error::UnexpectedLength) }
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Receipt<T = Log> {
    pub status: Eip658Value,
    pub cumulative_gas_used: u64,
    pub logs: Vec<T>,
}
impl ReceiptEnvelope {
    pub fn from_typed(ty: TxType, r: Receipt) -> Self {
        let mut bloom = Bloom::ZERO;
        for l in &r.logs {
            bloom.accrue(alloy_primitives::BloomInput::Raw(l.address.as_slice()));
            for t in &l.topics {
                bloom.accrue(alloy_primitives::BloomInput::Raw(t.as_slice()));
            }
        }
        let mut p = vec![];
        r.status.encode(&mut p);
        r.cumulative_gas_used.encode(&mut p);
        bloom.encode(&mut p);
        r.logs.encode(&mut p);
        let mut list = vec![];
        RlpHeader { list: true, payload_length: p.len() }.encode(&mut list);
        list.extend(p);
        Self::new(ty as u8, list)
    }
}
