//! The overlay networks as the portal bridge sees them; a script answers the requests.
use anyhow::anyhow;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        network::Subnetwork,
        ping_extensions::{decode::PingExtension, extension_types::PingExtensionType},
        portal_wire::{Nodes, Pong},
    },
    Enr,
};
use std::{sync::Arc, time::Duration};

pub trait Script: Send + Sync {
    fn ping(&self, net: Subnetwork, enr: &Enr) -> Option<Pong>;
    fn nodes(&self, net: Subnetwork, enr: &Enr, distances: &[u16]) -> Option<Vec<Enr>>;
    fn lookup(&self, net: Subnetwork, target: NodeId) -> Vec<Enr>;
}

#[derive(Clone)]
pub struct Overlay {
    net: Subnetwork,
    script: Arc<dyn Script>,
}
impl Overlay {
    pub async fn send_ping(&self, enr: Enr, _: Option<PingExtensionType>, _: Option<PingExtension>) -> Result<Pong, &'static str> {
        tokio::task::yield_now().await;
        self.script.ping(self.net, &enr).ok_or("no answer")
    }
    pub async fn send_find_nodes(&self, enr: Enr, distances: Vec<u16>) -> Result<Nodes, &'static str> {
        tokio::task::yield_now().await;
        let enrs = self.script.nodes(self.net, &enr, &distances).ok_or("no answer")?;
        Ok(Nodes { total: 1, enrs: enrs.into_iter().map(ethportal_api::types::enr::SszEnr::new).collect() })
    }
    pub async fn lookup_node(&self, target: NodeId) -> Vec<Enr> {
        tokio::time::sleep(Duration::from_secs(2)).await;
        self.script.lookup(self.net, target)
    }
}
pub struct Network {
    pub overlay: Overlay,
}

#[derive(Default, Clone)]
pub struct SubnetworkOverlays {
    pub script: Option<Arc<dyn Script>>,
}
impl SubnetworkOverlays {
    fn net(&self, net: Subnetwork) -> anyhow::Result<Arc<Network>> {
        let script = self.script.clone().ok_or_else(|| anyhow!("{net} network is not available"))?;
        Ok(Arc::new(Network { overlay: Overlay { net, script } }))
    }
    pub fn history(&self) -> anyhow::Result<Arc<Network>> {
        self.net(Subnetwork::LegacyHistory)
    }
    pub fn state(&self) -> anyhow::Result<Arc<Network>> {
        self.net(Subnetwork::State)
    }
    pub fn beacon(&self) -> anyhow::Result<Arc<Network>> {
        self.net(Subnetwork::Beacon)
    }
}
