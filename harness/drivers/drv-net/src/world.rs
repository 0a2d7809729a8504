//! A node's overlay protocol with everything around it under the driver's control: storage,
//! validation, the peers' answers and the uTP streams.
use alloy::primitives::{Bytes, B256, U256};
use discv5::{
    enr::{CombinedKey, NodeId},
    Enr, RequestError, TalkRequest,
};
use ethportal_api::{
    types::{
        content_key::error::ContentKeyError,
        distance::{Distance, XorMetric},
        network::Subnetwork,
        ping_extensions::extension_types::PingExtensionType,
        portal_wire::{Message, Request, Response},
        protocol_versions::{ProtocolVersion, ProtocolVersionList, ENR_PROTOCOL_VERSION_KEY},
    },
    OverlayContentKey, RawContentKey, RawContentValue,
};
use parking_lot::Mutex;
use portalnet::{
    config::PortalnetConfig,
    discovery::{Discovery, NodeAddress, UtpPeer},
    overlay::{
        config::OverlayConfig, errors::OverlayRequestError, ping_extensions::PingExtensions, protocol::OverlayProtocol,
    },
};
use serde_json::{json, Value};
use ssz::Encode;
use std::{
    collections::HashSet,
    fmt,
    sync::Arc,
};
use tokio::sync::{mpsc::UnboundedReceiver, oneshot};
use trin_storage::{error::ContentStoreError, ContentStore, ShouldWeStoreContent};
use trin_validation::validator::{ValidationResult, Validator};
use utp_rs::{
    control::{Open, Plan, Side},
    socket::UtpSocket,
};

/// One flag byte (does the radius matter?) and the content id.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub aff: bool,
    pub id: [u8; 32],
}
impl Key {
    pub fn new(first: u8, aff: bool) -> Self {
        let mut id = [0; 32];
        id[0] = first;
        Self { aff, id }
    }
    pub fn num(&self) -> i64 {
        self.id[0] as i64
    }
}
impl fmt::Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "key {}", self.id[0])
    }
}
impl OverlayContentKey for Key {
    fn content_id(&self) -> [u8; 32] {
        self.id
    }
    fn affected_by_radius(&self) -> bool {
        self.aff
    }
    fn to_bytes(&self) -> RawContentKey {
        let mut b = vec![self.aff as u8];
        b.extend(self.id);
        b.into()
    }
    fn try_from_bytes(bytes: impl AsRef<[u8]>) -> Result<Self, ContentKeyError> {
        let b = bytes.as_ref();
        if b.len() != 33 || b[0] > 1 {
            return Err(ContentKeyError::InvalidLength { received: b.len(), expected: 33 });
        }
        Ok(Self { aff: b[0] == 1, id: b[1..].try_into().unwrap() })
    }
}

/// A value says which key it belongs to and how good it is: key, quality, number, padding.
pub const QUALITY: [&str; 3] = ["bad", "weak", "canon"];
pub fn value(k: i64, q: &str, big: bool, n: i64) -> RawContentValue {
    let mut b = vec![k as u8, QUALITY.iter().position(|x| *x == q).expect("driver: quality") as u8];
    b.extend((n as u16).to_be_bytes());
    b.resize(if big { 3000 } else { 20 }, 0x5a);
    b.into()
}
pub fn shown(v: &[u8]) -> Value {
    let broken = json!({"k": 0, "q": "broken", "big": false, "n": 0});
    if v.len() < 4 || v[1] > 2 {
        return broken;
    }
    let n = u16::from_be_bytes([v[2], v[3]]) as i64;
    let big = v.len() == 3000;
    if value(v[0] as i64, QUALITY[v[1] as usize], big, n) != v.to_vec() {
        return broken;
    }
    json!({"k": v[0], "q": QUALITY[v[1] as usize], "big": big, "n": n})
}
pub fn from_shown(v: &Value) -> RawContentValue {
    let q = v["q"].as_str().unwrap();
    value(v["k"].as_i64().unwrap(), if q == "none" { "bad" } else { q }, v["big"].as_bool().unwrap(), v["n"].as_i64().unwrap())
}

pub struct Check;
impl Validator<Key> for Check {
    async fn validate_content(&self, key: &Key, value: &[u8]) -> ValidationResult {
        // validation may take a while
        tokio::task::yield_now().await;
        if value.len() < 4 || value[0] as i64 != key.num() {
            return ValidationResult::Invalid("another key".into());
        }
        match value[1] {
            2 => ValidationResult::CanonicallyValid,
            1 => ValidationResult::Valid,
            _ => ValidationResult::Invalid("bad".into()),
        }
    }
}

/// First in, first out; says what it has dropped.
pub struct Store {
    pub items: Vec<(Key, RawContentValue)>,
    pub want: HashSet<[u8; 32]>,
    pub cap: usize,
    pub radius: Distance,
}
impl ContentStore for Store {
    type Key = Key;
    fn get(&self, key: &Key) -> Result<Option<RawContentValue>, ContentStoreError> {
        Ok(self.items.iter().find(|(k, _)| k == key).map(|(_, v)| v.clone()))
    }
    fn put<V: AsRef<[u8]>>(&mut self, key: Key, value: V) -> Result<Vec<(Key, RawContentValue)>, ContentStoreError> {
        self.items.retain(|(k, _)| *k != key);
        self.items.push((key, Bytes::from(value.as_ref().to_vec())));
        let over = self.items.len().saturating_sub(self.cap);
        Ok(self.items.drain(..over).collect())
    }
    fn should_we_store(&self, key: &Key) -> Result<ShouldWeStoreContent, ContentStoreError> {
        Ok(if self.get(key)?.is_some() {
            ShouldWeStoreContent::AlreadyStored
        } else if key.aff && !self.want.contains(&key.id) {
            ShouldWeStoreContent::NotWithinRadius
        } else {
            ShouldWeStoreContent::Store
        })
    }
    fn radius(&self) -> Distance {
        self.radius
    }
}

#[derive(Default)]
pub struct Extensions {
    pub supported: Vec<PingExtensionType>,
    /// newest first
    pub base: Vec<PingExtensionType>,
    /// those of a real network instead
    pub real: Option<Box<dyn PingExtensions + Send + Sync>>,
}
impl PingExtensions for Extensions {
    fn is_supported(&self, extension: PingExtensionType) -> bool {
        match &self.real {
            Some(r) => r.is_supported(extension),
            None => self.supported.contains(&extension),
        }
    }
    fn latest_mutually_supported_base_extension(&self, e: &[PingExtensionType]) -> Option<PingExtensionType> {
        match &self.real {
            Some(r) => r.latest_mutually_supported_base_extension(e),
            None => self.base.iter().find(|b| e.contains(b)).copied(),
        }
    }
    fn supported_extensions(&self) -> &[PingExtensionType] {
        match &self.real {
            Some(r) => r.supported_extensions(),
            None => &self.supported,
        }
    }
}

pub struct Sent {
    pub to: NodeId,
    pub seq: u64,
    pub req: Request,
    pub answer: oneshot::Sender<Result<Vec<u8>, RequestError>>,
}

pub type Overlay = OverlayProtocol<Key, XorMetric, Check, Store, Extensions>;
pub struct World {
    pub overlay: Arc<Overlay>,
    pub discovery: Arc<Discovery>,
    pub store: Arc<Mutex<Store>>,
    control: UnboundedReceiver<Open<UtpPeer>>,
    wire: Arc<Mutex<Vec<Sent>>>,
}

/// The private key of a peer is its node id in the stand-in for discv5.
pub fn node_id(first: u8) -> NodeId {
    let mut id = [0u8; 32];
    id[0] = first;
    id[31] = 1;
    NodeId::new(&id)
}
pub fn num(id: &NodeId) -> i64 {
    id.raw()[0] as i64
}
pub fn record(first: u8, seq: u64, versions: &[u8], pad: usize) -> Enr {
    let mut raw = node_id(first).raw();
    let key = CombinedKey::secp256k1_from_bytes(&mut raw).expect("driver: key");
    let mut b = Enr::builder();
    b.seq(seq).ip4("10.0.0.1".parse().unwrap()).udp4(9000 + first as u16);
    if !versions.is_empty() {
        b.add_value(ENR_PROTOCOL_VERSION_KEY, &ProtocolVersionList::new(versions.iter().map(|v| ProtocolVersion::from(*v)).collect()));
    }
    if pad > 0 {
        b.add_value("z", &vec![7u8; pad][..]);
    }
    b.build(&key).expect("driver: record")
}

impl World {
    pub async fn new(cfg: OverlayConfig, store: Store, ext: Extensions) -> Self {
        discv5::net::reset();
        let discovery = Arc::new(
            Discovery::new(PortalnetConfig {
                no_stun: true,
                no_upnp: true,
                bootnodes: vec![],
                private_key: B256::from(node_id(0).raw()),
                ..Default::default()
            })
            .expect("driver: discovery"),
        );
        let wire: Arc<Mutex<Vec<Sent>>> = Default::default();
        let w = wire.clone();
        discv5::net::script(
            discovery.local_enr().node_id(),
            Arc::new(move |_src, enr: Enr, _proto, body| {
                let w = w.clone();
                Box::pin(async move {
                    let req = Request::try_from(Message::try_from(body).expect("driver: own message")).expect("driver: own request");
                    let (answer, rx) = oneshot::channel();
                    w.lock().push(Sent { to: enr.node_id(), seq: enr.seq(), req, answer });
                    rx.await.unwrap_or(Err(RequestError::Timeout))
                })
            }),
        );
        let utp = Arc::new(UtpSocket::<UtpPeer>::default());
        let control = utp.take_control();
        let store = Arc::new(Mutex::new(store));
        let overlay = Arc::new(
            Overlay::new(cfg, discovery.clone(), utp, store.clone(), Subnetwork::LegacyHistory, Arc::new(Check), Arc::new(ext)).await,
        );
        let mut me = Self { overlay, discovery, store, control, wire };
        me.settle().await;
        me
    }
    /// Lets everything run until nothing can go on by itself.
    pub async fn settle(&mut self) {
        for round in 0..3 {
            for _ in 0..40 {
                tokio::task::yield_now().await;
            }
            // lookups are looked at whenever the node has anything to do
            if round < 2 {
                let o = self.overlay.clone();
                tokio::spawn(async move {
                    let _ = o.event_stream().await;
                });
            }
        }
    }
    /// A session with this peer exists.
    pub fn session(&mut self, enr: Enr) {
        let socket_addr = "10.0.0.1:9000".parse().unwrap();
        self.discovery.put_cached_node_addr(NodeAddress { enr, socket_addr });
    }
    pub async fn request(&mut self, from: NodeId, req: Request) -> Option<Result<Response, OverlayRequestError>> {
        self.raw_request(from, Message::from(req).as_ssz_bytes()).await
    }
    /// `None` when the node does not come to an answer by itself.
    pub async fn raw_request(&mut self, from: NodeId, body: Vec<u8>) -> Option<Result<Response, OverlayRequestError>> {
        let (talk, _rx) = TalkRequest::make(from, vec![0x50, 0x00], body);
        let o = self.overlay.clone();
        let h = tokio::spawn(async move { o.process_one_request(&talk).await });
        self.settle().await;
        if h.is_finished() {
            h.await.ok()
        } else {
            None
        }
    }
    pub fn sent(&mut self) -> Vec<Sent> {
        std::mem::take(&mut self.wire.lock())
    }
    pub fn opened(&mut self) -> Vec<Open<UtpPeer>> {
        let mut r = vec![];
        while let Ok(o) = self.control.try_recv() {
            r.push(o);
        }
        r
    }
}

pub fn reply(sent: oneshot::Sender<Result<Vec<u8>, RequestError>>, r: Response) {
    let _ = sent.send(Ok(Message::from(r).as_ssz_bytes()));
}

pub fn read_plan(r: std::io::Result<Vec<u8>>) -> Plan {
    let (tx, rx) = oneshot::channel();
    let _ = tx.send(r);
    Plan { read: Some(rx), ..Default::default() }
}
pub fn broken() -> std::io::Error {
    std::io::ErrorKind::TimedOut.into()
}
pub fn side(s: Side) -> &'static str {
    match s {
        Side::Connect => "connect",
        Side::Accept => "accept",
    }
}
/// Items one after the other, each preceded by its length in LEB128.
pub fn framed(items: &[RawContentValue]) -> Vec<u8> {
    let mut out = vec![];
    for i in items {
        let mut n = i.len();
        loop {
            let b = (n & 0x7f) as u8;
            n >>= 7;
            out.push(if n > 0 { b | 0x80 } else { b });
            if n == 0 {
                break;
            }
        }
        out.extend_from_slice(i);
    }
    out
}
pub fn unframed(mut b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    while !b.is_empty() {
        let (mut n, mut shift) = (0usize, 0);
        loop {
            let x = *b.first()?;
            b = &b[1..];
            n |= ((x & 0x7f) as usize) << shift;
            shift += 7;
            if x & 0x80 == 0 {
                break;
            }
        }
        if b.len() < n {
            return None;
        }
        out.push(b[..n].to_vec());
        b = &b[n..];
    }
    Some(out)
}
pub fn max() -> Distance {
    Distance::MAX
}
pub fn radius(first: u8) -> Distance {
    let mut b = [0xffu8; 32];
    b[0] = first;
    Distance::from(U256::from_be_bytes(b))
}
pub fn run<T>(f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("driver: runtime");
    rt.block_on(f)
}
