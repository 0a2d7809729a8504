//! What surrounds the bridge: the nodes it reads from and the network it offers to; a script answers.
use std::sync::Arc;

pub trait Script: Send + Sync {
    fn block(&self, root: &str) -> Option<ethportal_api::consensus::beacon_block::BeaconBlockElectra>;
    fn state(&self, root: &str) -> Option<ethportal_api::consensus::beacon_state::HistoricalBatch>;
    fn receipts(&self, number: u64) -> Option<ethportal_api::Receipts>;
    fn events(&self) -> Option<tokio::sync::mpsc::UnboundedReceiver<consensus::event::BeaconEvent>>;
    /// An offer begins; `single` tells whether it was made as an offer of one item.
    fn begin(&self, enr: &ethportal_api::Enr, items: Vec<(Vec<u8>, Vec<u8>)>, single: bool) -> (usize, network::Answer);
    fn end(&self, offer: usize);
}
pub type World = Arc<dyn Script>;

pub mod consensus {
    use super::World;
    use alloy::rpc::types::beacon::events::BeaconNodeEventTopic;
    use anyhow::anyhow;
    use ethportal_api::consensus::{beacon_block::BeaconBlockElectra, beacon_state::HistoricalBatch, constants::SLOTS_PER_HISTORICAL_ROOT};
    use futures::Stream;

    pub mod event {
        use alloy::rpc::types::beacon::events::{FinalizedCheckpointEvent, HeadEvent, LightClientOptimisticUpdateEvent};
        #[derive(Clone, Debug)]
        pub enum BeaconEvent {
            Head(HeadEvent),
            LightClientOptimisticUpdate(LightClientOptimisticUpdateEvent),
            FinalizedCheckpoint(FinalizedCheckpointEvent),
            Other,
        }
    }

    pub fn first_slot_in_a_period(slot: u64) -> u64 {
        (slot / SLOTS_PER_HISTORICAL_ROOT) * SLOTS_PER_HISTORICAL_ROOT
    }

    pub struct SignedBeaconBlockElectra {
        pub message: BeaconBlockElectra,
    }

    #[derive(Clone)]
    pub struct ConsensusApi(pub World);
    impl ConsensusApi {
        pub fn get_events_stream(&self, _: &[BeaconNodeEventTopic], _: &str) -> anyhow::Result<std::pin::Pin<Box<dyn Stream<Item = event::BeaconEvent> + Send>>> {
            let rx = self.0.events().ok_or_else(|| anyhow!("no events"))?;
            Ok(Box::pin(futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|e| (e, rx)) })))
        }
        pub async fn get_beacon_block<S: Into<String>>(&self, id: S) -> anyhow::Result<SignedBeaconBlockElectra> {
            tokio::task::yield_now().await;
            self.0.block(&id.into()).map(|message| SignedBeaconBlockElectra { message }).ok_or_else(|| anyhow!("no block"))
        }
        pub async fn get_beacon_state<S: Into<String>>(&self, id: S) -> anyhow::Result<HistoricalBatch> {
            tokio::task::yield_now().await;
            self.0.state(&id.into()).ok_or_else(|| anyhow!("no state"))
        }
    }
}

pub mod execution {
    use super::World;
    use anyhow::anyhow;
    use ethportal_api::Receipts;

    #[derive(Clone)]
    pub struct ExecutionApi(pub World);
    impl ExecutionApi {
        pub async fn get_receipts(&self, number: u64) -> anyhow::Result<Receipts> {
            tokio::task::yield_now().await;
            self.0.receipts(number).ok_or_else(|| anyhow!("no receipts"))
        }
    }
}

pub mod network {
    use super::World;
    use ethportal_api::{
        types::{
            accept_code::{AcceptCode, AcceptCodeList},
            portal_wire::{OfferTrace, OfferTraceMultipleItems},
        },
        Enr, RawContentKey, RawContentValue,
    };
    use std::{sync::Arc, time::Duration};

    /// How a peer answers, and after how many milliseconds.
    #[derive(Clone)]
    pub enum Answer {
        Code(AcceptCode, u64),
        Failed(u64),
        Error(u64),
        Silence,
    }
    struct Ends(World, usize);
    impl Drop for Ends {
        fn drop(&mut self) {
            self.0.end(self.1);
        }
    }
    #[derive(Clone)]
    pub struct Overlay(World);
    impl Overlay {
        async fn offer(&self, enr: Enr, items: Vec<(RawContentKey, RawContentValue)>, single: bool) -> Result<Option<AcceptCode>, &'static str> {
            let items = items.into_iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
            let (n, answer) = self.0.begin(&enr, items, single);
            // also when the caller gives up
            let _ends = Ends(self.0.clone(), n);
            match answer {
                Answer::Code(code, ms) => {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    Ok(Some(code))
                }
                Answer::Failed(ms) => {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    Ok(None)
                }
                Answer::Error(ms) => {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    Err("no answer")
                }
                Answer::Silence => futures::future::pending().await,
            }
        }
        pub async fn send_offer_trace(&self, enr: Enr, key: RawContentKey, value: RawContentValue) -> Result<OfferTrace, &'static str> {
            Ok(self.offer(enr, vec![(key, value)], true).await?.map_or(OfferTrace::Failed, OfferTrace::Success))
        }
        pub async fn send_offer_trace_with_multiple_items(&self, enr: Enr, items: Vec<(RawContentKey, RawContentValue)>) -> Result<OfferTraceMultipleItems, &'static str> {
            let n = items.len();
            Ok(match self.offer(enr, items, false).await? {
                Some(code) => {
                    let mut list = AcceptCodeList::new(n).expect("codes");
                    (0..n).for_each(|i| list.set(i, code));
                    OfferTraceMultipleItems::Success(list)
                }
                None => OfferTraceMultipleItems::Failed,
            })
        }
    }
    pub struct LegacyHistoryNetwork {
        pub overlay: Arc<Overlay>,
    }
    impl LegacyHistoryNetwork {
        pub fn new(world: World) -> Self {
            Self { overlay: Arc::new(Overlay(world)) }
        }
    }
}
