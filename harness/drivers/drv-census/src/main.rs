//! Runs programs on the census of the portal bridge.  The networks around it are a script, time is
//! virtual.
#[path = "/repo/bin/portal-bridge/src/census/mod.rs"]
mod census;
mod cli {
    /// The part of the configuration that the census reads.
    pub struct BridgeConfig {
        pub enr_offer_limit: usize,
    }
}

use alloy::primitives::{keccak256, U256};
use census::Census;
use common::*;
use discv5::enr::{CombinedKey, NodeId};
use ethportal_api::{
    types::{
        accept_code::AcceptCode,
        content_key::{beacon::*, state::*},
        distance::Distance,
        network::Subnetwork,
        ping_extensions::{
            extension_types::PingExtensionType,
            extensions::{type_0::ClientInfoRadiusCapabilities, type_1::BasicRadius},
        },
        portal_wire::{CustomPayload, OfferTrace, Pong},
    },
    BeaconContentKey, Enr, LegacyHistoryContentKey, OverlayContentKey, StateContentKey,
};
use serde_json::{json, Value};
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

const NETS: [Subnetwork; 3] = [Subnetwork::Beacon, Subnetwork::LegacyHistory, Subnetwork::State];
const RADII: i64 = 5;

fn id(p: i64) -> NodeId {
    let mut b = [0u8; 32];
    b[0] = (p * 37) as u8;
    b[31] = p as u8;
    NodeId::new(&b)
}
fn record(p: i64, seq: i64) -> Enr {
    let mut raw = id(p).raw();
    let key = CombinedKey::secp256k1_from_bytes(&mut raw).expect("driver: key");
    Enr::builder().seq(seq as u64).ip4("10.0.0.1".parse().unwrap()).udp4(9000 + p as u16).build(&key).expect("driver: record")
}
fn state_key(k: i64) -> StateContentKey {
    StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: keccak256([k as u8]), code_hash: keccak256([k as u8, 1]) })
}
fn history_key(k: i64) -> LegacyHistoryContentKey {
    LegacyHistoryContentKey::new_block_header_by_hash(keccak256([k as u8, 2]))
}
fn beacon_key(k: i64) -> BeaconContentKey {
    BeaconContentKey::LightClientBootstrap(LightClientBootstrapKey { block_hash: keccak256([k as u8, 3]).0 })
}
fn content_id(net: usize, k: i64) -> [u8; 32] {
    match NETS[net] {
        Subnetwork::Beacon => beacon_key(k).content_id(),
        Subnetwork::State => state_key(k).content_id(),
        _ => history_key(k).content_id(),
    }
}
fn apart(p: i64, c: &[u8; 32]) -> U256 {
    let n = id(p).raw();
    let mut d = [0u8; 32];
    for i in 0..32 {
        d[i] = n[i] ^ c[i];
    }
    U256::from_be_bytes(d)
}
/// Nothing, half, everything, exactly up to the first key and just short of it.
fn radius(net: usize, p: i64, class: i64) -> U256 {
    match class {
        1 => U256::ZERO,
        2 => U256::MAX >> 1,
        3 => U256::MAX,
        4 => apart(p, &content_id(net, 0)),
        _ => apart(p, &content_id(net, 0)) - U256::from(1),
    }
}

#[derive(Clone)]
struct Behaviour {
    how: String,
    seq: i64,
    rad: i64,
    fetch: String,
}
struct World {
    peers: i64,
    now: tokio::time::Instant,
    act: Vec<Vec<Behaviour>>,
    found: Vec<Vec<(i64, i64)>>,
    log: Vec<Value>,
}
impl World {
    fn t(&self) -> i64 {
        self.now.elapsed().as_secs() as i64
    }
    fn who(&self, enr: &Enr) -> i64 {
        (1..=self.peers).find(|&p| id(p) == enr.node_id()).unwrap_or(0)
    }
}
fn net_no(net: Subnetwork) -> usize {
    NETS.iter().position(|n| *n == net).expect("driver: network")
}
struct Shared(Mutex<World>);
impl trin::Script for Shared {
    fn ping(&self, net: Subnetwork, enr: &Enr) -> Option<Pong> {
        let mut w = self.0.lock().unwrap();
        let (n, p, t) = (net_no(net), w.who(enr), w.t());
        let b = w.act[n][p as usize - 1].clone();
        w.log.push(json!({"e": "ping", "net": n + 1, "p": p, "t": t, "used": enr.seq(), "out": b.how, "pong": b.seq, "rad": b.rad}));
        let (payload_type, payload): (_, CustomPayload) = match b.how.as_str() {
            "ok" => {
                let c = ClientInfoRadiusCapabilities::new(Distance::from(radius(n, p, b.rad)), vec![PingExtensionType::Capabilities]);
                (PingExtensionType::Capabilities, c.into())
            }
            "odd" => (PingExtensionType::BasicRadius, BasicRadius::new(Distance::MAX).into()),
            "noise" => (PingExtensionType::Capabilities, BasicRadius::new(Distance::MAX).into()),
            _ => return None,
        };
        Some(Pong { enr_seq: b.seq as u64, payload_type, payload })
    }
    fn nodes(&self, net: Subnetwork, enr: &Enr, distances: &[u16]) -> Option<Vec<Enr>> {
        let mut w = self.0.lock().unwrap();
        let (n, p, t) = (net_no(net), w.who(enr), w.t());
        let b = w.act[n][p as usize - 1].clone();
        let own = distances.contains(&0);
        let q = p % w.peers + 1;
        let (out, rec, answer) = match b.fetch.as_str() {
            "ok" if own => ("rec", b.seq, Some(vec![record(p, b.seq)])),
            "more" if own => ("rec", b.seq, Some(vec![record(q, 7), record(p, b.seq)])),
            "stale" if own => ("rec", 1, Some(vec![record(p, 1)])),
            "other" => ("none", 0, Some(vec![record(q, 9)])),
            "none" => ("none", 0, Some(vec![])),
            _ => ("none", 0, None),
        };
        w.log.push(json!({"e": "fetch", "net": n + 1, "p": p, "t": t, "out": out, "rec": rec}));
        answer
    }
    fn lookup(&self, net: Subnetwork, _target: NodeId) -> Vec<Enr> {
        let w = self.0.lock().unwrap();
        w.found[net_no(net)].iter().map(|(p, s)| record(*p, *s)).collect()
    }
}
fn trace(r: &str) -> OfferTrace {
    match r {
        "fail" => OfferTrace::Failed,
        "ok" => OfferTrace::Success(AcceptCode::Accepted),
        "stored" => OfferTrace::Success(AcceptCode::AlreadyStored),
        "limited" => OfferTrace::Success(AcceptCode::RateLimited),
        "far" => OfferTrace::Success(AcceptCode::NotWithinRadius),
        _ => OfferTrace::Success(AcceptCode::Declined),
    }
}
fn everyone(c: &Census, net: usize) -> Vec<NodeId> {
    c.select_random_peers(NETS[net]).map(|v| v.iter().map(|i| i.enr.node_id()).collect()).unwrap_or_default()
}

fn run_one(i: usize, p: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("driver: runtime");
    let cfg = p["cfg"].clone();
    let n = int(&cfg, "n");
    let mut ev = vec![];
    let done = guarded(|| {
        rt.block_on(async {
            let b = Behaviour { how: "ok".into(), seq: 1, rad: 3, fetch: "ok".into() };
            let shared = Arc::new(Shared(Mutex::new(World {
                peers: n,
                now: tokio::time::Instant::now(),
                act: vec![vec![b; n as usize]; 3],
                found: vec![vec![]; 3],
                log: vec![],
            })));
            let limit = int(&cfg, "limit") as usize;
            let mut c = Census::new(trin::SubnetworkOverlays { script: Some(shared.clone()) }, &cli::BridgeConfig { enr_offer_limit: limit });
            let mut service = None;
            for o in p["ops"].as_array().expect("driver: ops") {
                let mut e = o.clone();
                let op = text(o, "op").to_string();
                e["e"] = json!(op);
                e.as_object_mut().unwrap().remove("op");
                let net = (int(o, "net") - 1) as usize;
                let who = int(o, "p");
                match op.as_str() {
                    "act" => {
                        let b = Behaviour { how: text(o, "how").into(), seq: int(o, "seq"), rad: int(o, "rad"), fetch: text(o, "fetch").into() };
                        shared.0.lock().unwrap().act[net][who as usize - 1] = b;
                    }
                    "find" => {
                        let f = o["recs"].as_array().expect("driver: records").iter().map(|r| (r[0].as_i64().unwrap(), r[1].as_i64().unwrap()));
                        shared.0.lock().unwrap().found[net] = f.collect();
                    }
                    "init" => {
                        let nets: Vec<_> = o["nets"].as_array().expect("driver: nets").iter().map(|x| NETS[x.as_u64().unwrap() as usize - 1]).collect();
                        let r = tokio::time::timeout(Duration::from_secs(60), c.init(nets)).await;
                        e["ok"] = json!(matches!(r, Ok(Ok(_))));
                        if let Ok(Ok(h)) = r {
                            service = Some(h);
                        }
                    }
                    "tick" => {
                        tokio::time::sleep(Duration::from_secs(int(o, "secs") as u64)).await;
                        for _ in 0..20 {
                            tokio::task::yield_now().await;
                        }
                        let alive = !service.as_ref().is_some_and(|h: &tokio::task::JoinHandle<()>| h.is_finished());
                        e["t"] = json!(shared.0.lock().unwrap().t());
                        e["alive"] = json!(alive);
                    }
                    "offer" => {
                        for _ in 0..int(o, "times") {
                            c.record_offer_result(NETS[net], id(who), 100, Duration::from_secs(1), &trace(text(o, "how")));
                        }
                    }
                    "select" => {
                        let k = int(o, "key");
                        let (affected, r) = match (k < 0, NETS[net]) {
                            (true, s) => (false, c.select_random_peers(s)),
                            (_, s @ Subnetwork::Beacon) => (beacon_key(k).affected_by_radius(), c.select_peers(s, &beacon_key(k))),
                            (_, s @ Subnetwork::State) => (state_key(k).affected_by_radius(), c.select_peers(s, &state_key(k))),
                            (_, s) => (history_key(k).affected_by_radius(), c.select_peers(s, &history_key(k))),
                        };
                        let world = shared.0.lock().unwrap();
                        let cov: Vec<Vec<bool>> = (1..=n)
                            .map(|q| (1..=RADII).map(|r| !affected || apart(q, &content_id(net, k)) <= radius(net, q, r)).collect())
                            .collect();
                        e["cov"] = json!(cov);
                        e["ok"] = json!(r.is_ok());
                        e["out"] = json!(r.unwrap_or_default().iter().map(|i| json!([world.who(&i.enr), i.enr.seq()])).collect::<Vec<_>>());
                    }
                    "draw" => {
                        let mut times = vec![0; n as usize];
                        for _ in 0..1000 {
                            for q in everyone(&c, net) {
                                if let Some(i) = (1..=n).find(|&i| id(i) == q) {
                                    times[i as usize - 1] += 1;
                                }
                            }
                        }
                        e["times"] = json!(times);
                    }
                    _ => {
                        // how many setbacks it takes until a peer is no longer chosen
                        let counts: Vec<i64> = (1..=n)
                            .map(|q| {
                                let mut k = 0;
                                while everyone(&c, net).contains(&id(q)) && k < 210 {
                                    c.record_offer_result(NETS[net], id(q), 100, Duration::from_secs(1), &trace(text(o, "how")));
                                    k += 1;
                                }
                                k
                            })
                            .collect();
                        e["counts"] = json!(counts);
                    }
                }
                ev.extend(std::mem::take(&mut shared.0.lock().unwrap().log));
                ev.push(e);
            }
            if let Some(h) = service {
                h.abort();
            }
        })
    });
    if let Err(m) = done {
        ev.push(panic_event("run", &m));
    } else if let Some(m) = take_panic() {
        ev.push(panic_event("service", &m));
    }
    json!({"id": i, "cfg": cfg, "ev": ev})
}
fn main() {
    run(|i, p| vec![run_one(i, &p)]);
}
