use common::*;
use discv5::enr::NodeId;
use ethportal_api::types::{distance::Distance, network::Subnetwork};
use serde_json::{json, Value};
use trin_storage::{config::StorageCapacityConfig, PortalStorageConfigFactory};

const NETS: [(&str, Subnetwork); 3] =
    [("beacon", Subnetwork::Beacon), ("history", Subnetwork::LegacyHistory), ("state", Subnetwork::State)];

pub fn call(o: &Value) -> Value {
    let mb = |n: &str| u32::try_from(int(&o["spec"], n)).ok();
    let cfg = if text(o, "op") == "combined" {
        StorageCapacityConfig::Combined {
            total_mb: int(o, "total") as u32,
            subnetworks: o["nets"]
                .as_array()
                .unwrap()
                .iter()
                .map(|n| NETS.iter().find(|x| x.0 == n.as_str().unwrap()).unwrap().1)
                .collect(),
        }
    } else {
        StorageCapacityConfig::Specific {
            beacon_mb: mb("beacon"),
            legacy_history_mb: mb("history"),
            state_mb: mb("state"),
        }
    };
    let dir = tempfile::TempDir::new().expect("driver: dir");
    let f = PortalStorageConfigFactory::new(cfg, NodeId::new(&[7; 32]), dir.path().to_path_buf()).expect("driver: factory");
    let mut got = json!({});
    for (name, net) in NETS {
        got[name] = match f.create(&net, Distance::MAX) {
            Ok(c) => json!({"ok": true, "amount": [c.storage_capacity_bytes / 1_000_000, c.storage_capacity_bytes % 1_000_000]}),
            Err(_) => json!({"ok": false, "amount": [0, 0]}),
        };
    }
    let others: Vec<bool> = [Subnetwork::CanonicalIndices, Subnetwork::VerkleState, Subnetwork::TransactionGossip]
        .iter()
        .map(|n| f.create(n, Distance::MAX).is_ok())
        .collect();
    json!({"e": o["op"], "total": o["total"], "nets": o["nets"], "spec": o["spec"], "got": got, "others": others})
}
