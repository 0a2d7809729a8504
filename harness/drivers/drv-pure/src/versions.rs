use crate::ints;
use alloy_hardforks::EthereumChainHardforks;
use bimap::BiHashMap;
use discv5::{enr::CombinedKey, Enr};
use ethportal_api::types::{
    network::Network,
    network_spec::NetworkSpec,
    protocol_versions::{ProtocolVersion, ProtocolVersionList, ENR_PROTOCOL_VERSION_KEY},
};
use serde_json::{json, Value};

fn list(l: &[i64]) -> ProtocolVersionList {
    ProtocolVersionList::new(l.iter().map(|v| ProtocolVersion::from(*v as u8)).collect())
}
fn spec(l: &[i64]) -> Option<NetworkSpec> {
    NetworkSpec::new(BiHashMap::new(), Network::Mainnet, list(l), EthereumChainHardforks::mainnet(), 0).ok()
}
fn enr(how: &str, l: &[i64]) -> Enr {
    let mut b = Enr::builder();
    match how {
        "list" => {
            b.add_value(ENR_PROTOCOL_VERSION_KEY, &list(l));
        }
        "bad" => {
            b.add_value(ENR_PROTOCOL_VERSION_KEY, &[1u8; 9][..]);
        }
        _ => {}
    }
    b.build(&CombinedKey::generate_secp256k1()).expect("driver: record")
}
fn negotiate(s: &NetworkSpec, e: &Enr) -> i64 {
    s.latest_common_protocol_version(e).map(|v| u8::from(v) as i64).unwrap_or(-1)
}

pub fn call(o: &Value) -> Value {
    let local = ints(&o["local"]);
    let other = ints(&o["other"]["list"]);
    let how = o["other"]["how"].as_str().unwrap();
    let (made, res, back) = match spec(&local) {
        None => (false, -1, -2),
        Some(s) => {
            let res = negotiate(&s, &enr(how, &other));
            let proper = other.windows(2).all(|w| w[0] < w[1]) && other.iter().all(|v| *v <= 2);
            let back = match spec(&other) {
                Some(t) if how == "list" && proper => negotiate(&t, &enr("list", s.supported_protocol_versions().iter().map(|v| u8::from(*v) as i64).collect::<Vec<_>>().as_slice())),
                _ => -2,
            };
            (true, res, back)
        }
    };
    json!({"e": "negotiate", "local": local, "other": o["other"], "made": made, "res": res, "back": back})
}
