//! Node records with stand-in keys: the public key carries the private bytes and the node id is
//! those same 32 bytes, so a driver can place nodes anywhere in the id space.
use alloy_primitives::keccak256;
use alloy_rlp::{BufMut, Decodable, Encodable, Header};
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine};
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::{
    collections::BTreeMap,
    fmt,
    marker::PhantomData,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddrV4},
    str::FromStr,
};

pub const MAX_ENR_SIZE: usize = 300;
pub type Key = Vec<u8>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NodeId {
    raw: [u8; 32],
}
impl NodeId {
    pub const fn new(raw: &[u8; 32]) -> Self {
        Self { raw: *raw }
    }
    pub fn parse(b: &[u8]) -> Result<Self, &'static str> {
        b.try_into().map(|raw| Self { raw }).map_err(|_| "Input too large")
    }
    pub fn random() -> Self {
        Self { raw: rand::random() }
    }
    pub const fn raw(&self) -> [u8; 32] {
        self.raw
    }
}
impl From<[u8; 32]> for NodeId {
    fn from(raw: [u8; 32]) -> Self {
        Self { raw }
    }
}
impl From<NodeId> for [u8; 32] {
    fn from(n: NodeId) -> Self {
        n.raw
    }
}
impl<K> From<Enr<K>> for NodeId {
    fn from(e: Enr<K>) -> Self {
        e.node_id()
    }
}
impl<K> From<&Enr<K>> for NodeId {
    fn from(e: &Enr<K>) -> Self {
        e.node_id()
    }
}
impl AsRef<[u8]> for NodeId {
    fn as_ref(&self) -> &[u8] {
        &self.raw
    }
}
impl PartialEq<[u8; 32]> for NodeId {
    fn eq(&self, o: &[u8; 32]) -> bool {
        self.raw == *o
    }
}
impl fmt::Display for NodeId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let h = hex::encode(self.raw);
        write!(f, "0x{}..{}", &h[..4], &h[60..])
    }
}
impl fmt::Debug for NodeId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.raw))
    }
}
impl Serialize for NodeId {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.raw)))
    }
}
impl<'de> Deserialize<'de> for NodeId {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(D::Error::custom)?;
        Self::parse(&b).map_err(D::Error::custom)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    ExceedsMaxSize,
    SequenceNumberTooHigh,
    SigningError,
    UnsupportedIdentityScheme,
    InvalidRlpData(alloy_rlp::Error),
    InvalidKey,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub enum CombinedKey {
    Secp256k1([u8; 32]),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CombinedPublicKey([u8; 33]);
impl CombinedPublicKey {
    pub fn encode(&self) -> Vec<u8> {
        self.0.to_vec()
    }
}
impl From<CombinedPublicKey> for NodeId {
    fn from(k: CombinedPublicKey) -> Self {
        NodeId::parse(&k.0[1..]).unwrap()
    }
}
pub trait EnrKey {
    type PublicKey;
    fn public(&self) -> Self::PublicKey;
}
impl EnrKey for CombinedKey {
    type PublicKey = CombinedPublicKey;
    fn public(&self) -> CombinedPublicKey {
        CombinedKey::public(self)
    }
}
impl CombinedKey {
    pub fn generate_secp256k1() -> Self {
        Self::Secp256k1(rand::random())
    }
    pub fn secp256k1_from_bytes(b: &mut [u8]) -> Result<Self, Error> {
        let a: [u8; 32] = (&*b).try_into().map_err(|_| Error::InvalidKey)?;
        Ok(Self::Secp256k1(a))
    }
    pub fn encode(&self) -> Vec<u8> {
        let Self::Secp256k1(a) = self;
        a.to_vec()
    }
    pub fn public(&self) -> CombinedPublicKey {
        let Self::Secp256k1(a) = self;
        let mut p = [2u8; 33];
        p[1..].copy_from_slice(a);
        CombinedPublicKey(p)
    }
}

pub struct Enr<K = CombinedKey> {
    seq: u64,
    content: BTreeMap<Vec<u8>, Vec<u8>>,
    signature: Vec<u8>,
    _k: PhantomData<fn() -> K>,
}
impl<K> Clone for Enr<K> {
    fn clone(&self) -> Self {
        Self { seq: self.seq, content: self.content.clone(), signature: self.signature.clone(), _k: PhantomData }
    }
}
impl<K> PartialEq for Enr<K> {
    fn eq(&self, o: &Self) -> bool {
        self.seq == o.seq && self.node_id() == o.node_id() && self.signature == o.signature
    }
}
impl<K> Eq for Enr<K> {}
impl<K> std::hash::Hash for Enr<K> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.seq.hash(h);
        self.node_id().hash(h);
        self.signature.hash(h);
    }
}
impl<K> fmt::Debug for Enr<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Enr({}, seq {})", self.node_id(), self.seq)
    }
}
impl<K> fmt::Display for Enr<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_base64())
    }
}

fn rlp_of<T: Encodable + ?Sized>(v: &T) -> Vec<u8> {
    let mut out = vec![];
    v.encode(&mut out);
    out
}

impl Enr<CombinedKey> {
    pub fn builder() -> Builder<CombinedKey> {
        Builder::default()
    }
    pub fn empty(key: &CombinedKey) -> Result<Self, Error> {
        Builder::default().build(key)
    }
    fn sign(&mut self, key: &CombinedKey) -> Result<(), Error> {
        self.content.insert(b"id".to_vec(), rlp_of(&b"v4"[..]));
        self.content.insert(b"secp256k1".to_vec(), rlp_of(&key.public().encode()[..]));
        let body = self.body();
        let h = keccak256(&body);
        self.signature = [h.as_slice(), keccak256(h).as_slice()].concat();
        if self.size() > MAX_ENR_SIZE {
            return Err(Error::ExceedsMaxSize);
        }
        Ok(())
    }
    pub fn set_seq(&mut self, seq: u64, key: &CombinedKey) -> Result<(), Error> {
        self.seq = seq;
        self.sign(key)
    }
    pub fn insert<T: Encodable>(&mut self, k: impl AsRef<[u8]>, v: &T, key: &CombinedKey) -> Result<Option<bytes::Bytes>, Error> {
        let old = self.content.insert(k.as_ref().to_vec(), rlp_of(v));
        self.seq += 1;
        self.sign(key)?;
        Ok(old.map(Into::into))
    }
    pub fn set_udp4(&mut self, port: u16, key: &CombinedKey) -> Result<Option<u16>, Error> {
        let old = self.udp4();
        self.insert("udp", &port, key)?;
        Ok(old)
    }
}
impl<K> Enr<K> {
    fn body(&self) -> Vec<u8> {
        let mut p = vec![];
        self.seq.encode(&mut p);
        for (k, v) in &self.content {
            k.as_slice().encode(&mut p);
            p.extend_from_slice(v);
        }
        p
    }
    pub fn node_id(&self) -> NodeId {
        let k: Option<bytes::Bytes> = self.get_decodable("secp256k1").and_then(|r| r.ok());
        match k {
            Some(k) if k.len() == 33 => NodeId::parse(&k[1..]).unwrap(),
            _ => NodeId::new(&[0; 32]),
        }
    }
    pub fn seq(&self) -> u64 {
        self.seq
    }
    pub fn get_raw_rlp(&self, k: impl AsRef<[u8]>) -> Option<&[u8]> {
        self.content.get(k.as_ref()).map(|v| v.as_slice())
    }
    pub fn get_decodable<T: Decodable>(&self, k: impl AsRef<[u8]>) -> Option<Result<T, alloy_rlp::Error>> {
        self.content.get(k.as_ref()).map(|v| T::decode(&mut v.as_slice()))
    }
    pub fn ip4(&self) -> Option<Ipv4Addr> {
        self.get_decodable::<bytes::Bytes>("ip")
            .and_then(|r| r.ok())
            .and_then(|b| <[u8; 4]>::try_from(b.as_ref()).ok())
            .map(Ipv4Addr::from)
    }
    pub fn ip6(&self) -> Option<Ipv6Addr> {
        None
    }
    pub fn udp4(&self) -> Option<u16> {
        self.get_decodable("udp").and_then(|r| r.ok())
    }
    pub fn tcp4(&self) -> Option<u16> {
        self.get_decodable("tcp").and_then(|r| r.ok())
    }
    pub fn udp4_socket(&self) -> Option<SocketAddrV4> {
        Some(SocketAddrV4::new(self.ip4()?, self.udp4()?))
    }
    pub fn signature(&self) -> &[u8] {
        &self.signature
    }
    pub fn verify(&self) -> bool {
        true
    }
    pub fn size(&self) -> usize {
        self.length()
    }
    pub fn to_base64(&self) -> String {
        format!("enr:{}", URL_SAFE_NO_PAD.encode(rlp_of(self)))
    }
    pub fn iter(&self) -> impl Iterator<Item = (&Vec<u8>, &[u8])> {
        self.content.iter().map(|(k, v)| (k, v.as_slice()))
    }
}
impl<K> Encodable for Enr<K> {
    fn encode(&self, out: &mut dyn BufMut) {
        let mut p = vec![];
        self.signature.as_slice().encode(&mut p);
        p.extend(self.body());
        Header { list: true, payload_length: p.len() }.encode(out);
        out.put_slice(&p);
    }
    fn length(&self) -> usize {
        let mut p = vec![];
        self.signature.as_slice().encode(&mut p);
        let n = p.len() + self.body().len();
        n + alloy_rlp::length_of_length(n)
    }
}
impl<K> Decodable for Enr<K> {
    fn decode(buf: &mut &[u8]) -> alloy_rlp::Result<Self> {
        if buf.len() > MAX_ENR_SIZE {
            return Err(alloy_rlp::Error::Custom("enr exceeds max size"));
        }
        let mut p = Header::decode_bytes(buf, true)?;
        if p.is_empty() {
            return Err(alloy_rlp::Error::Custom("Payload is empty"));
        }
        let signature = Header::decode_bytes(&mut p, false)?.to_vec();
        let seq = u64::decode(&mut p)?;
        let mut content = BTreeMap::new();
        let mut prev: Option<Vec<u8>> = None;
        while !p.is_empty() {
            let k = Header::decode_bytes(&mut p, false)?.to_vec();
            if prev.as_ref().is_some_and(|x| *x >= k) {
                return Err(alloy_rlp::Error::Custom("Unsorted keys"));
            }
            let start = p;
            let h = Header::decode(&mut p)?;
            if p.len() < h.payload_length {
                return Err(alloy_rlp::Error::InputTooShort);
            }
            p = &p[h.payload_length..];
            content.insert(k.clone(), start[..start.len() - p.len()].to_vec());
            prev = Some(k);
        }
        let e = Self { seq, content, signature, _k: PhantomData };
        if !e.content.contains_key(&b"secp256k1"[..]) || e.signature.len() != 64 {
            return Err(alloy_rlp::Error::Custom("Invalid Signature"));
        }
        Ok(e)
    }
}
impl<K> FromStr for Enr<K> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let s = s.strip_prefix("enr:").unwrap_or(s);
        let b = URL_SAFE_NO_PAD.decode(s).map_err(|e| format!("Invalid base64 encoding: {e:?}"))?;
        Self::decode(&mut b.as_slice()).map_err(|e| format!("Invalid ENR: {e:?}"))
    }
}
impl<K> Serialize for Enr<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_base64())
    }
}
impl<'de, K> Deserialize<'de> for Enr<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?.parse().map_err(D::Error::custom)
    }
}

pub struct Builder<K = CombinedKey> {
    seq: u64,
    content: BTreeMap<Vec<u8>, Vec<u8>>,
    _k: PhantomData<K>,
}
impl<K> Default for Builder<K> {
    fn default() -> Self {
        Self { seq: 1, content: BTreeMap::new(), _k: PhantomData }
    }
}
impl Builder<CombinedKey> {
    pub fn seq(&mut self, seq: u64) -> &mut Self {
        self.seq = seq;
        self
    }
    pub fn add_value<T: Encodable + ?Sized>(&mut self, k: impl AsRef<[u8]>, v: &T) -> &mut Self {
        self.content.insert(k.as_ref().to_vec(), rlp_of(v));
        self
    }
    pub fn add_value_rlp(&mut self, k: impl AsRef<[u8]>, v: bytes::Bytes) -> &mut Self {
        self.content.insert(k.as_ref().to_vec(), v.to_vec());
        self
    }
    pub fn ip(&mut self, ip: IpAddr) -> &mut Self {
        match ip {
            IpAddr::V4(a) => self.ip4(a),
            IpAddr::V6(a) => self.add_value("ip6", &a.octets()[..]),
        }
    }
    pub fn ip4(&mut self, ip: Ipv4Addr) -> &mut Self {
        self.add_value("ip", &ip.octets()[..])
    }
    pub fn udp4(&mut self, p: u16) -> &mut Self {
        self.add_value("udp", &p)
    }
    pub fn tcp4(&mut self, p: u16) -> &mut Self {
        self.add_value("tcp", &p)
    }
    pub fn build(&mut self, key: &CombinedKey) -> Result<Enr<CombinedKey>, Error> {
        let mut e = Enr { seq: self.seq, content: self.content.clone(), signature: vec![], _k: PhantomData };
        e.sign(key)?;
        Ok(e)
    }
}
