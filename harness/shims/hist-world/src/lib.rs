//! What surrounds the bridge that offers the past: the archives it reads and the network it offers to;
//! a script answers.
pub use e2store as real;
use e2store::e2hs::BlockTuple;
use std::{cell::RefCell, sync::Arc};

pub trait Script: Send + Sync {
    fn epochs(&self) -> Vec<u64>;
    fn file(&self, epoch: u64) -> Vec<BlockTuple>;
    fn begin(&self, enr: &ethportal_api::Enr, key: Vec<u8>, value: Vec<u8>) -> (usize, network::Answer);
    fn end(&self, n: usize);
}
pub type World = Arc<dyn Script>;

thread_local!(static WORLD: RefCell<Option<World>> = const { RefCell::new(None) });
pub fn set(world: World) {
    WORLD.with(|w| *w.borrow_mut() = Some(world));
}
fn world() -> World {
    WORLD.with(|w| w.borrow().clone()).expect("driver: world")
}

// The client that fetches the archives.
pub mod header {
    pub struct HeaderValue;
    impl HeaderValue {
        pub fn from_static(_: &'static str) -> Self {
            HeaderValue
        }
    }
    pub type HeaderMap = Vec<(&'static str, HeaderValue)>;
    pub const CONTENT_TYPE: &str = "content-type";
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no network")
    }
}
impl std::error::Error for Error {}
#[derive(Clone)]
pub struct Client;
impl Client {
    pub fn builder() -> Self {
        Client
    }
    pub fn default_headers(self, _: header::HeaderMap) -> Self {
        self
    }
    pub fn build(self) -> Result<Self, Error> {
        Ok(self)
    }
    pub fn get(&self, url: impl AsRef<str>) -> Request {
        Request(url.as_ref().to_string())
    }
}
pub struct Request(String);
impl Request {
    pub async fn send(self) -> Result<Self, Error> {
        tokio::task::yield_now().await;
        Ok(self)
    }
    pub async fn bytes(self) -> Result<bytes::Bytes, Error> {
        tokio::task::yield_now().await;
        Ok(bytes::Bytes::from(self.0))
    }
}

pub mod utils {
    use std::collections::HashMap;
    pub async fn get_e2hs_files(_: &super::Client) -> anyhow::Result<HashMap<u64, String>> {
        Ok(super::world().epochs().into_iter().map(|e| (e, e.to_string())).collect())
    }
}
pub mod e2hs {
    pub use e2store::e2hs::{BlockTuple, BLOCKS_PER_E2HS};
    pub struct E2HSMemory;
    impl E2HSMemory {
        pub fn iter_tuples(raw: &[u8]) -> anyhow::Result<impl Iterator<Item = BlockTuple>> {
            let epoch = std::str::from_utf8(raw)?.parse()?;
            Ok(super::world().file(epoch).into_iter())
        }
    }
}

pub mod network {
    use super::World;
    use ethportal_api::{
        types::{accept_code::AcceptCode, portal_wire::OfferTrace},
        Enr, RawContentKey, RawContentValue,
    };
    use std::{sync::Arc, time::Duration};

    /// How a peer answers, and after how many milliseconds.
    #[derive(Clone)]
    pub enum Answer {
        Code(AcceptCode, u64),
        Failed(u64),
        Error(u64),
        Silence,
    }
    struct Ends(World, usize);
    impl Drop for Ends {
        fn drop(&mut self) {
            self.0.end(self.1);
        }
    }
    #[derive(Clone)]
    pub struct Overlay(World);
    impl Overlay {
        pub async fn send_offer_trace(&self, enr: Enr, key: RawContentKey, value: RawContentValue) -> Result<OfferTrace, &'static str> {
            let (n, answer) = self.0.begin(&enr, key.to_vec(), value.to_vec());
            // also when the caller gives up
            let _ends = Ends(self.0.clone(), n);
            let wait = |ms| tokio::time::sleep(Duration::from_millis(ms));
            match answer {
                Answer::Code(code, ms) => {
                    wait(ms).await;
                    Ok(OfferTrace::Success(code))
                }
                Answer::Failed(ms) => {
                    wait(ms).await;
                    Ok(OfferTrace::Failed)
                }
                Answer::Error(ms) => {
                    wait(ms).await;
                    Err("no answer")
                }
                Answer::Silence => futures::future::pending().await,
            }
        }
    }
    pub struct LegacyHistoryNetwork {
        pub overlay: Arc<Overlay>,
    }
    impl LegacyHistoryNetwork {
        pub fn new(world: World) -> Self {
            Self { overlay: Arc::new(Overlay(world)) }
        }
    }
}
