use alloy_primitives::{Bytes, B256};
use sha2::{Digest, Sha256};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Eip2718Error {
    RlpError(alloy_rlp::Error),
    UnexpectedType(u8),
}
impl std::fmt::Display for Eip2718Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Eip2718Error {}
impl From<alloy_rlp::Error> for Eip2718Error {
    fn from(e: alloy_rlp::Error) -> Self {
        Self::RlpError(e)
    }
}
pub trait Decodable2718: Sized {
    fn decode_2718(buf: &mut &[u8]) -> Result<Self, Eip2718Error>;
    fn decode_2718_exact(mut bytes: &[u8]) -> Result<Self, Eip2718Error> {
        let v = Self::decode_2718(&mut bytes)?;
        if bytes.is_empty() { Ok(v) } else { Err(Eip2718Error::RlpError(alloy_rlp::Error::UnexpectedLength)) }
    }
}
pub trait Encodable2718 {
    fn encode_2718(&self, out: &mut dyn alloy_rlp::BufMut);
    fn encode_2718_len(&self) -> usize;
    fn encoded_2718(&self) -> Vec<u8> {
        let mut v = vec![];
        self.encode_2718(&mut v);
        v
    }
}
pub mod eip2718 {
    pub use super::{Decodable2718, Eip2718Error, Encodable2718};
}
pub mod eip4788 {
    pub const BEACON_ROOTS_ADDRESS: alloy_primitives::Address =
        alloy_primitives::address!("0x000F3df6D732807Ef1319fB7B8bB8522d0Beac02");
}
pub mod eip4895 {
    use alloy_primitives::Address;
    use alloy_rlp::{RlpDecodable, RlpEncodable};
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, RlpEncodable, RlpDecodable, Serialize, Deserialize)]
    pub struct Withdrawal {
        pub index: u64,
        pub validator_index: u64,
        pub address: Address,
        pub amount: u64,
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct Withdrawals(pub Vec<Withdrawal>);
    impl Withdrawals {
        pub fn new(w: Vec<Withdrawal>) -> Self {
            Self(w)
        }
    }
    impl std::ops::Deref for Withdrawals {
        type Target = Vec<Withdrawal>;
        fn deref(&self) -> &Vec<Withdrawal> {
            &self.0
        }
    }
    impl alloy_rlp::Encodable for Withdrawals {
        fn encode(&self, out: &mut dyn alloy_rlp::BufMut) {
            self.0.encode(out)
        }
        fn length(&self) -> usize {
            self.0.length()
        }
    }
    impl alloy_rlp::Decodable for Withdrawals {
        fn decode(b: &mut &[u8]) -> alloy_rlp::Result<Self> {
            Vec::decode(b).map(Self)
        }
    }
}
pub mod eip6110 {
    pub const DEPOSIT_REQUEST_TYPE: u8 = 0;
}
pub mod eip7002 {
    pub const WITHDRAWAL_REQUEST_TYPE: u8 = 1;
}
pub mod eip7251 {
    pub const CONSOLIDATION_REQUEST_TYPE: u8 = 2;
}
pub mod eip7685 {
    use super::*;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Requests(Vec<Bytes>);
    impl Requests {
        pub fn with_capacity(n: usize) -> Self {
            Self(Vec::with_capacity(n))
        }
        pub fn push_request(&mut self, r: Bytes) {
            if r.len() > 1 {
                self.0.push(r)
            }
        }
        pub fn push_request_with_type(&mut self, ty: u8, r: impl IntoIterator<Item = u8>) {
            let mut it = r.into_iter().peekable();
            if it.peek().is_some() {
                self.0.push(std::iter::once(ty).chain(it).collect::<Vec<u8>>().into())
            }
        }
        pub fn requests_hash(&self) -> B256 {
            let mut h = Sha256::new();
            for r in &self.0 {
                h.update(Sha256::digest(r));
            }
            B256::from_slice(&h.finalize())
        }
    }
}
