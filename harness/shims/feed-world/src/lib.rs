//! What surrounds the beacon bridge: the node it reads from and the network it offers to; a script answers.
use alloy::primitives::B256;
use ethportal_api::light_client::{
    bootstrap::LightClientBootstrapElectra, finality_update::LightClientFinalityUpdateElectra,
    optimistic_update::LightClientOptimisticUpdateElectra, update::LightClientUpdateElectra,
};
use std::sync::Arc;

pub trait Script: Send + Sync {
    fn block_root(&self) -> Option<B256>;
    fn bootstrap(&self, root: B256) -> Option<LightClientBootstrapElectra>;
    fn updates(&self, period: u64, count: u64) -> Option<Vec<LightClientUpdateElectra>>;
    fn optimistic(&self) -> Option<LightClientOptimisticUpdateElectra>;
    fn finality(&self) -> Option<LightClientFinalityUpdateElectra>;
    fn state_root(&self) -> Option<B256>;
    fn state(&self) -> Option<consensus::BeaconState>;
    fn begin(&self, enr: &ethportal_api::Enr, key: Vec<u8>, value: Vec<u8>) -> network::Answer;
}
pub type World = Arc<dyn Script>;

pub mod consensus {
    use super::*;
    use anyhow::anyhow;
    use ethportal_api::consensus::historical_summaries::{HistoricalSummaries, HistoricalSummariesProof};
    use std::fmt::Display;

    pub struct RootResponse {
        pub root: B256,
    }
    /// As much of a state as the bridge looks at.
    pub struct BeaconState {
        pub slot: u64,
        pub historical_summaries: HistoricalSummaries,
        pub proof: HistoricalSummariesProof,
    }
    impl BeaconState {
        pub fn build_historical_summaries_proof(&self) -> HistoricalSummariesProof {
            self.proof.clone()
        }
    }
    #[derive(Clone)]
    pub struct ConsensusApi(pub World);
    impl ConsensusApi {
        async fn ask<T>(&self, get: impl FnOnce(&World) -> Option<T>) -> anyhow::Result<T> {
            tokio::task::yield_now().await;
            get(&self.0).ok_or_else(|| anyhow!("no answer"))
        }
        pub async fn get_beacon_state_finalized_root(&self) -> anyhow::Result<RootResponse> {
            self.ask(|w| w.state_root().map(|root| RootResponse { root })).await
        }
        pub async fn get_light_client_bootstrap(&self, root: B256) -> anyhow::Result<LightClientBootstrapElectra> {
            self.ask(|w| w.bootstrap(root)).await
        }
        pub async fn get_beacon_block_root<S: AsRef<str> + Display>(&self, id: S) -> anyhow::Result<RootResponse> {
            let finalized = id.as_ref() == "finalized";
            self.ask(|w| w.block_root().filter(|_| finalized).map(|root| RootResponse { root })).await
        }
        pub async fn get_light_client_updates(&self, period: u64, count: u64) -> anyhow::Result<Vec<LightClientUpdateElectra>> {
            self.ask(|w| w.updates(period, count)).await
        }
        pub async fn get_light_client_optimistic_update(&self) -> anyhow::Result<LightClientOptimisticUpdateElectra> {
            self.ask(|w| w.optimistic()).await
        }
        pub async fn get_light_client_finality_update(&self) -> anyhow::Result<LightClientFinalityUpdateElectra> {
            self.ask(|w| w.finality()).await
        }
        pub async fn get_beacon_state<S: AsRef<str> + Display>(&self, id: S) -> anyhow::Result<BeaconState> {
            let finalized = id.as_ref() == "finalized";
            self.ask(|w| w.state().filter(|_| finalized)).await
        }
    }
}

pub mod network {
    use super::World;
    use ethportal_api::{
        types::{accept_code::AcceptCode, portal_wire::OfferTrace},
        Enr, RawContentKey, RawContentValue,
    };
    use std::sync::Arc;

    #[derive(Clone)]
    pub enum Answer {
        Code(AcceptCode),
        Failed,
        Error,
        Silence,
    }
    pub struct Overlay(World);
    impl Overlay {
        pub async fn send_offer_trace(&self, enr: Enr, key: RawContentKey, value: RawContentValue) -> Result<OfferTrace, &'static str> {
            let answer = self.0.begin(&enr, key.to_vec(), value.to_vec());
            tokio::task::yield_now().await;
            match answer {
                Answer::Code(code) => Ok(OfferTrace::Success(code)),
                Answer::Failed => Ok(OfferTrace::Failed),
                Answer::Error => Err("no answer"),
                Answer::Silence => futures::future::pending().await,
            }
        }
    }
    pub struct BeaconNetwork {
        pub overlay: Arc<Overlay>,
    }
    impl BeaconNetwork {
        pub fn new(world: World) -> Self {
            Self { overlay: Arc::new(Overlay(world)) }
        }
    }
}
