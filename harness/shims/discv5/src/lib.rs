//! In-memory discv5: the same API, with packets carried by a process-wide network that a driver
//! can script.
pub mod enr;
pub mod kbucket;
pub use kbucket::{ConnectionDirection, ConnectionState, Key};
pub type Enr = enr::Enr<enr::CombinedKey>;
use enr::{CombinedKey, NodeId};
use parking_lot::{Mutex, RwLock};
use std::{
    collections::HashMap,
    fmt,
    future::Future,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    pin::Pin,
    sync::{Arc, LazyLock},
    time::Duration,
};
use tokio::sync::{mpsc, oneshot};

pub mod rpc {
    #[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
    pub struct RequestId(pub Vec<u8>);
    impl std::fmt::Display for RequestId {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&hex::encode(&self.0))
        }
    }
}
pub mod service {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Pong {
        pub enr_seq: u64,
        pub ip: IpAddr,
        pub port: u16,
    }
}

macro_rules! errs {
    ($n:ident { $($v:ident $(($t:ty))?),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum $n { $($v $(($t))?),* }
        impl fmt::Display for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
        }
        impl std::error::Error for $n {}
    };
}
errs!(RequestError { Timeout, SelfRequest, ServiceNotStarted, InvalidEnr(String), EntropyFailure(String), UnsupportedEnr, ChannelFailed(String), InvalidRemoteEnr, InvalidRemotePacket, ResponseFailed(String), EncodePacketFailed, InvalidMultiaddr(String), NonceReused });
errs!(QueryError { ServiceNotStarted, ChannelFailed(String), InvalidMultiaddr(String) });
errs!(ResponseError { ChannelClosed });
errs!(Error { ServiceNotStarted, ServiceAlreadyStarted, InvalidKey, Io(String) });

#[derive(Debug)]
pub struct TalkRequest {
    id: rpc::RequestId,
    node_id: NodeId,
    protocol: Vec<u8>,
    body: Vec<u8>,
    sender: Option<oneshot::Sender<Vec<u8>>>,
}
impl Drop for TalkRequest {
    fn drop(&mut self) {
        if let Some(s) = self.sender.take() {
            let _ = s.send(vec![]);
        }
    }
}
impl TalkRequest {
    /// Driver entry point: a request and the channel its response arrives on.
    pub fn make(node_id: NodeId, protocol: Vec<u8>, body: Vec<u8>) -> (Self, oneshot::Receiver<Vec<u8>>) {
        let (tx, rx) = oneshot::channel();
        let id = rpc::RequestId(rand::random::<[u8; 8]>().to_vec());
        (Self { id, node_id, protocol, body, sender: Some(tx) }, rx)
    }
    pub fn id(&self) -> &rpc::RequestId {
        &self.id
    }
    pub fn node_id(&self) -> &NodeId {
        &self.node_id
    }
    pub fn protocol(&self) -> &[u8] {
        &self.protocol
    }
    pub fn body(&self) -> &[u8] {
        &self.body
    }
    pub fn respond(mut self, response: Vec<u8>) -> Result<(), ResponseError> {
        self.sender.take().ok_or(ResponseError::ChannelClosed)?.send(response).map_err(|_| ResponseError::ChannelClosed)
    }
}

#[derive(Debug)]
pub enum Event {
    Discovered(Enr),
    NodeInserted { node_id: NodeId, replaced: Option<NodeId> },
    SessionEstablished(Enr, SocketAddr),
    SocketUpdated(SocketAddr),
    TalkRequest(TalkRequest),
}

#[derive(Clone, Debug)]
pub enum ListenConfig {
    Ipv4 { ip: Ipv4Addr, port: u16 },
    Ipv6 { ip: Ipv6Addr, port: u16 },
}
#[derive(Clone, Debug)]
pub struct Config {
    pub listen_config: ListenConfig,
    pub request_timeout: Duration,
}
pub struct ConfigBuilder(Config);
impl ConfigBuilder {
    pub fn new(listen_config: ListenConfig) -> Self {
        Self(Config { listen_config, request_timeout: Duration::from_secs(1) })
    }
    pub fn request_timeout(&mut self, d: Duration) -> &mut Self {
        self.0.request_timeout = d;
        self
    }
    pub fn session_cache_capacity(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> Config {
        self.0.clone()
    }
}

/// The process-wide network.
pub mod net {
    use super::*;
    pub type Reply = Pin<Box<dyn Future<Output = Result<Vec<u8>, RequestError>> + Send>>;
    /// Called for every TALKREQ leaving a node: (source, destination record, protocol, body).
    pub type Script = Arc<dyn Fn(NodeId, Enr, Vec<u8>, Vec<u8>) -> Reply + Send + Sync>;
    pub(crate) struct Host {
        pub tx: mpsc::Sender<Event>,
    }
    pub(crate) static HOSTS: LazyLock<Mutex<HashMap<NodeId, Host>>> = LazyLock::new(Default::default);
    /// Scripts per source node; `None` delivers to started hosts.
    pub(crate) static SCRIPTS: LazyLock<RwLock<HashMap<NodeId, Script>>> = LazyLock::new(Default::default);
    pub fn script(source: NodeId, s: Script) {
        SCRIPTS.write().insert(source, s);
    }
    pub fn reset() {
        HOSTS.lock().clear();
        SCRIPTS.write().clear();
    }
}

pub struct Discv5 {
    local: Arc<RwLock<Enr>>,
    key: CombinedKey,
    config: Config,
    table: Arc<RwLock<kbucket::KBucketsTable<NodeId, Enr>>>,
    events: Mutex<Option<mpsc::Receiver<Event>>>,
    started: bool,
}
impl Discv5 {
    pub fn new(enr: Enr, key: CombinedKey, config: Config) -> Result<Self, &'static str> {
        let table = kbucket::KBucketsTable::new(Key::from(enr.node_id()), Duration::from_secs(60), 16, None, None);
        Ok(Self {
            local: Arc::new(RwLock::new(enr)),
            key,
            config,
            table: Arc::new(RwLock::new(table)),
            events: Mutex::new(None),
            started: false,
        })
    }
    pub async fn start(&mut self) -> Result<(), Error> {
        let (tx, rx) = mpsc::channel(1000);
        net::HOSTS.lock().insert(self.local_enr().node_id(), net::Host { tx });
        *self.events.lock() = Some(rx);
        self.started = true;
        Ok(())
    }
    pub async fn event_stream(&self) -> Result<mpsc::Receiver<Event>, Error> {
        self.events.lock().take().ok_or(Error::ServiceNotStarted)
    }
    pub fn local_enr(&self) -> Enr {
        self.local.read().clone()
    }
    pub fn connected_peers(&self) -> usize {
        self.table.write().iter().filter(|e| e.status.is_connected()).count()
    }
    pub fn table_entries_enr(&self) -> Vec<Enr> {
        self.table.write().iter().map(|e| e.node.value.clone()).collect()
    }
    pub fn table_entries_id(&self) -> Vec<NodeId> {
        self.table.write().iter().map(|e| *e.node.key.preimage()).collect()
    }
    pub fn kbuckets(&self) -> kbucket::KBucketsTable<NodeId, Enr> {
        self.table.read().clone()
    }
    pub fn find_enr(&self, id: &NodeId) -> Option<Enr> {
        if let kbucket::Entry::Present(e, _) = self.table.write().entry(&Key::from(*id)) {
            return Some(e.value().clone());
        }
        None
    }
    pub fn add_enr(&self, enr: Enr) -> Result<(), &'static str> {
        let st = kbucket::NodeStatus { direction: ConnectionDirection::Incoming, state: ConnectionState::Disconnected };
        let key = Key::from(enr.node_id());
        match self.table.write().insert_or_update(&key, enr, st) {
            kbucket::InsertResult::Failed(_) => Err("Table full"),
            _ => Ok(()),
        }
    }
    pub fn remove_node(&self, id: &NodeId) -> bool {
        self.table.write().remove(&Key::from(*id))
    }
    pub fn update_local_enr_socket(&self, s: SocketAddr, _is_tcp: bool) -> bool {
        let SocketAddr::V4(s) = s else { return false };
        let mut e = self.local.write();
        let old = e.clone();
        e.insert("ip", &bytes::Bytes::copy_from_slice(&s.ip().octets()), &self.key).is_ok()
            && e.insert("udp", &s.port(), &self.key).is_ok()
            && *e != old
    }
    pub fn talk_req(&self, enr: Enr, protocol: Vec<u8>, request: Vec<u8>) -> impl Future<Output = Result<Vec<u8>, RequestError>> + 'static {
        let src = self.local_enr().node_id();
        let timeout = self.config.request_timeout;
        let started = self.started;
        async move {
            let script = net::SCRIPTS.read().get(&src).cloned();
            if let Some(s) = script {
                return s(src, enr, protocol, request).await;
            }
            if !started {
                return Err(RequestError::ServiceNotStarted);
            }
            let tx = net::HOSTS.lock().get(&enr.node_id()).map(|h| h.tx.clone());
            let Some(tx) = tx else {
                tokio::time::sleep(timeout).await;
                return Err(RequestError::Timeout);
            };
            let (req, rx) = TalkRequest::make(src, protocol, request);
            if tx.send(Event::TalkRequest(req)).await.is_err() {
                return Err(RequestError::Timeout);
            }
            match tokio::time::timeout(timeout, rx).await {
                Ok(Ok(v)) => Ok(v),
                _ => Err(RequestError::Timeout),
            }
        }
    }
    pub async fn send_ping(&self, enr: Enr) -> Result<service::Pong, RequestError> {
        if net::HOSTS.lock().contains_key(&enr.node_id()) {
            return Ok(service::Pong {
                enr_seq: enr.seq(),
                ip: IpAddr::V4(Ipv4Addr::LOCALHOST),
                port: enr.udp4().unwrap_or(9000),
            });
        }
        Err(RequestError::Timeout)
    }
    pub async fn find_node(&self, _target: NodeId) -> Result<Vec<Enr>, QueryError> {
        Ok(self.table_entries_enr())
    }
    pub async fn find_node_designated_peer(&self, _enr: Enr, _d: Vec<u64>) -> Result<Vec<Enr>, RequestError> {
        Ok(vec![])
    }
}
