//! The peer table of one node: sessions, pings, records, requests, gossip and lookups.
use crate::world::*;
use alloy::primitives::U256;
use common::*;
use discv5::{Enr, RequestError};
use ethportal_api::{
    types::{
        distance::Distance,
        enr::SszEnr,
        ping_extensions::{
            decode::PingExtension,
            extension_types::PingExtensionType,
            extensions::{type_0::ClientInfoRadiusCapabilities, type_1::BasicRadius, type_2::HistoryRadius},
        },
        portal_wire::{Accept, Content, CustomPayload, FindContent, FindNodes, Message, Nodes, Ping, Pong, Request, Response},
    },
    OverlayContentKey, RawContentValue,
};
use parking_lot::Mutex;
use portalnet::{overlay::config::OverlayConfig, types::kbucket::Entry};
use serde_json::{json, Value};
use ssz::Encode;
use std::{
    collections::{BTreeMap, HashSet},
    sync::Arc,
    time::Duration,
};
use tokio::{sync::oneshot, task::JoinHandle};
use utp_rs::control::{Open, Plan, Side};

#[path = "/repo/crates/subnetworks/beacon/src/ping_extensions.rs"]
mod beacon;
#[path = "/repo/crates/subnetworks/legacy-history/src/ping_extensions.rs"]
mod legacy_history;
#[path = "/repo/crates/subnetworks/state/src/ping_extensions.rs"]
mod state;

const INTERVAL: u64 = 20;

/// Four times the first byte, plus 0, 1 or 3 for what follows: zeros, zeros and a one, or ones.
pub fn distance(code: i64) -> Distance {
    let mut b = [if code & 3 == 3 { 0xff } else { 0 }; 32];
    if code & 3 == 1 {
        b[31] = 1;
    }
    b[0] = (code >> 2) as u8;
    Distance::from(U256::from_be_bytes(b))
}
fn code(d: &Distance) -> i64 {
    let b: [u8; 32] = d.to_be_bytes();
    let first = (b[0] as i64) << 2;
    (0..4).map(|i| first + i).find(|c| distance(*c) == *d && c & 3 != 2).unwrap_or(first + 2)
}

fn nums(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

struct Pending {
    kind: &'static str,
    p: i64,
    answer: oneshot::Sender<Result<Vec<u8>, RequestError>>,
}

struct Run {
    w: World,
    peers: Vec<i64>,
    pads: Vec<i64>,
    aff: HashSet<i64>,
    pending: BTreeMap<i64, Pending>,
    streams: Vec<(Open<portalnet::discovery::UtpPeer>, i64)>,
    looks: Vec<(i64, JoinHandle<Vec<i64>>)>,
    next: i64,
    ev: Vec<Value>,
}

/// The payload of a ping or pong.  Bodies that do not belong to the extension are malformed.
fn payload(b: &Value) -> CustomPayload {
    let d = distance(int(b, "r"));
    let caps = || nums(&b["caps"]).iter().map(|c| PingExtensionType::from(*c as u16)).collect::<Vec<_>>();
    let client = ClientInfoRadiusCapabilities::new_with_client_info(None, d, caps());
    let named = ClientInfoRadiusCapabilities::new(d, caps());
    match text(b, "kind") {
        "caps" if int(b, "n") % 2 == 0 => client.into(),
        "caps" => named.into(),
        "radius" => BasicRadius { data_radius: d }.into(),
        "history" => HistoryRadius { data_radius: d, ephemeral_header_count: int(b, "n") as u16 }.into(),
        "junk" => {
            let c = client.as_ssz_bytes();
            match int(b, "n") % 6 {
                0 => vec![],
                1 => vec![7; 31],
                2 => c[..c.len() - 1].to_vec(),
                3 => {
                    // an offset that points elsewhere
                    let mut c = c;
                    c[0] ^= 8;
                    c
                }
                4 => {
                    // a client name that is not text
                    let mut x = named.as_ssz_bytes();
                    x[40] = 0xff;
                    x
                }
                _ => vec![9; 35],
            }
            .into()
        }
        k => panic!("driver: body {k}"),
    }
}
/// What a payload says.
fn read(ext: PingExtensionType, p: CustomPayload) -> Value {
    let mut v = json!({"ext": u16::from(ext), "kind": "junk", "r": 0, "caps": [], "n": 0});
    match PingExtension::decode_ssz(ext, p) {
        Ok(PingExtension::Capabilities(c)) => {
            v["kind"] = json!("caps");
            v["r"] = json!(code(&c.data_radius));
            v["caps"] = json!(c.capabilities.iter().map(|c| u16::from(*c)).collect::<Vec<_>>());
        }
        Ok(PingExtension::BasicRadius(b)) => {
            v["kind"] = json!("radius");
            v["r"] = json!(code(&b.data_radius));
        }
        Ok(PingExtension::HistoryRadius(b)) => {
            v["kind"] = json!("history");
            v["r"] = json!(code(&b.data_radius));
            v["n"] = json!(b.ephemeral_header_count);
        }
        Ok(PingExtension::Error(_)) => v["kind"] = json!("error"),
        Err(_) => {}
    }
    v
}

impl Run {
    fn record(&self, p: i64, seq: i64) -> Enr {
        let pad = self.pads[(p + seq) as usize % self.pads.len()];
        record(p as u8, seq as u64, &[0, 1], pad as usize)
    }
    fn name(&self, e: &Enr) -> Value {
        let (p, seq) = (num(&e.node_id()), e.seq() as i64);
        // a record is only taken for what it says when it is that record
        let known = if p == 0 { *e == self.w.discovery.local_enr() } else { *e == self.record(p, seq) };
        json!({"p": p, "seq": if known { if p == 0 { 0 } else { seq } } else { -1 }})
    }
    fn names<'a>(&self, l: impl IntoIterator<Item = &'a SszEnr>) -> Vec<Value> {
        l.into_iter().map(|e| self.name(&e.0)).collect()
    }

    /// What the node keeps about a peer.
    fn row(&self, p: i64) -> Option<Value> {
        let (node, status, pend) = match self.w.overlay.kbuckets().entry(node_id(p as u8)) {
            Entry::Present(n, s) => (n, s, false),
            Entry::Pending(n, s) => (n, s, true),
            _ => return None,
        };
        let mut v = self.name(&node.enr());
        v["conn"] = json!(status.is_connected());
        v["pend"] = json!(pend);
        v["rad"] = json!(code(&node.data_radius()));
        v["caps"] = match node.capabilities() {
            Some(l) => json!(l.iter().map(|c| u16::from(*c)).collect::<Vec<_>>()),
            None => json!([-1]),
        };
        v["hdr"] = json!(node.ephemeral_header_count().map_or(-1, i64::from));
        Some(v)
    }

    async fn effects(&mut self) -> Value {
        self.w.settle().await;
        let mut out = vec![];
        for s in self.w.sent() {
            let p = num(&s.to);
            let mut v = json!({"p": p, "seq": s.seq, "ds": [], "ks": [], "body": read(PingExtensionType::Capabilities, vec![].into())});
            let kind = match s.req {
                Request::Ping(x) => {
                    v["body"] = read(x.payload_type, x.payload);
                    "ping"
                }
                Request::FindNodes(x) => {
                    v["ds"] = json!(x.distances);
                    "nodes"
                }
                Request::FindContent(_) => "find",
                Request::Offer(x) => {
                    let ks = x.content_keys.iter().map(|k| Key::try_from_bytes(k).map(|k| k.num()).unwrap_or(0)).collect::<Vec<_>>();
                    v["ks"] = json!(ks);
                    "offer"
                }
                _ => "other",
            };
            v["kind"] = json!(kind);
            out.push((p, kind, v, s.answer));
        }
        out.sort_by_key(|o| (o.1, o.0));
        let out: Vec<Value> = out
            .into_iter()
            .map(|(p, kind, mut v, answer)| {
                self.next += 1;
                v["id"] = json!(self.next);
                self.pending.insert(self.next, Pending { kind, p, answer });
                v
            })
            .collect();
        self.streams.extend(self.w.opened().into_iter().map(|s| (s, 0)));
        let mut looked = vec![];
        let mut i = 0;
        while i < self.looks.len() {
            if self.looks[i].1.is_finished() {
                let (t, h) = self.looks.remove(i);
                looked.push(json!({"t": t, "res": h.await.unwrap_or_default()}));
            } else {
                i += 1;
            }
        }
        let table: Vec<Value> = self.peers.iter().filter_map(|p| self.row(*p)).collect();
        json!({"out": out, "table": table, "looked": looked, "open": self.streams.len()})
    }

    async fn op(&mut self, o: &Value) {
        let mut e = o.clone();
        e["e"] = o["op"].clone();
        e.as_object_mut().unwrap().remove("op");
        match text(o, "op") {
            "session" => {
                let r = self.record(int(o, "p"), int(o, "seq"));
                self.w.session(r);
            }
            "ping" => {
                let payload_type = PingExtensionType::from(int(o, "ext") as u16);
                let req = Request::Ping(Ping { enr_seq: int(o, "seq") as u64, payload_type, payload: payload(&o["body"]) });
                let r = self.w.request(node_id(int(o, "p") as u8), req).await;
                e["res"] = match r {
                    Some(Ok(Response::Pong(p))) => {
                        e["own"] = json!(p.enr_seq == self.w.discovery.local_enr().seq());
                        read(p.payload_type, p.payload)
                    }
                    _ => json!({"ext": 0, "kind": "none", "r": 0, "caps": [], "n": 0}),
                };
            }
            "nodes" => {
                let ds = nums(&o["ds"]).iter().map(|d| *d as u16).collect();
                let r = self.w.request(node_id(int(o, "p") as u8), Request::FindNodes(FindNodes { distances: ds })).await;
                e["res"] = json!("none");
                e["names"] = json!([]);
                e["bytes"] = json!(0);
                if let Some(Ok(Response::Nodes(n))) = r {
                    e["res"] = json!("nodes");
                    e["names"] = json!(self.names(&n.enrs));
                    e["bytes"] = json!(Message::from(Response::Nodes(n)).as_ssz_bytes().len());
                }
            }
            "find" => {
                let k = int(o, "k");
                let key = if k == 0 { vec![3u8; 33].into() } else { Key::new(k as u8, self.aff.contains(&k)).to_bytes() };
                let r = self.w.request(node_id(int(o, "p") as u8), Request::FindContent(FindContent { content_key: key })).await;
                e["res"] = json!("none");
                e["names"] = json!([]);
                e["bytes"] = json!(0);
                e["len"] = json!(-1);
                e["same"] = json!(true);
                e["wait"] = json!(false);
                let before = self.streams.len();
                self.streams.extend(self.w.opened().into_iter().map(|s| (s, k)));
                if let Some(Ok(Response::Content(c))) = r {
                    e["bytes"] = json!(Message::from(Response::Content(c.clone())).as_ssz_bytes().len());
                    match c {
                        Content::Content(c) => {
                            e["res"] = json!("content");
                            e["len"] = json!(c.len());
                            e["same"] = json!(c.iter().all(|b| *b == k as u8));
                        }
                        Content::ConnectionId(c) => {
                            e["res"] = json!("conn");
                            let (conn, id) = (u16::from_be(c), node_id(int(o, "p") as u8));
                            e["wait"] = json!(self.streams[before..].iter().any(|(s, _)| {
                                s.side == Side::Accept && s.cid.send == conn && s.cid.recv == conn.wrapping_add(1) && s.cid.peer_id == id
                            }));
                        }
                        Content::Enrs(l) => {
                            e["res"] = json!("enrs");
                            e["names"] = json!(self.names(&l));
                        }
                    }
                }
            }
            "done" => {
                if self.streams.is_empty() {
                    return;
                }
                let (s, k) = self.streams.remove(0);
                let (tx, close) = oneshot::channel();
                let _ = tx.send(Ok(()));
                let out: Arc<Mutex<Vec<u8>>> = Default::default();
                let to = out.clone();
                let write = Box::new(move |b: &[u8]| {
                    to.lock().extend(b);
                    Ok(b.len())
                });
                let _ = s.answer.send(Ok(Plan { write: Some(write), close: Some(close), ..Default::default() }));
                self.w.settle().await;
                // what was sent, with or without its length in front
                let b = out.lock().clone();
                let n = (0..4usize.min(b.len())).find(|i| {
                    let plain: RawContentValue = vec![k as u8; b.len() - i].into();
                    b[*i..].iter().all(|x| *x == k as u8) && (*i == 0 || b == framed(&[plain]))
                });
                e["k"] = json!(k);
                e["len"] = json!(n.map_or(-1, |i| (b.len() - i) as i64));
            }
            "tick" => tokio::time::advance(Duration::from_secs(INTERVAL + 1)).await,
            "reply" => {
                let ids: Vec<i64> = self.pending.keys().copied().collect();
                if ids.is_empty() {
                    return;
                }
                let id = ids[int(o, "o") as usize % ids.len()];
                let Pending { kind, p, answer } = self.pending.remove(&id).unwrap();
                let how = text(o, "how");
                let what = match (how, kind) {
                    ("error" | "garbled", _) => how,
                    ("cross", "ping") => "nodes",
                    ("cross", _) => "pong",
                    (_, "ping") => "pong",
                    (_, "offer") => "declined",
                    (_, x) => x,
                };
                let listed: Vec<SszEnr> = o["rs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|r| {
                        let q = int(r, "p");
                        SszEnr(if q == 0 { self.w.discovery.local_enr() } else { self.record(q, int(r, "seq")) })
                    })
                    .collect();
                match what {
                    "error" => {
                        let _ = answer.send(Err(RequestError::Timeout));
                    }
                    "garbled" => {
                        let _ = answer.send(Ok(vec![0xee, 1]));
                    }
                    "pong" => {
                        let b = &o["body"];
                        reply(
                            answer,
                            Response::Pong(Pong {
                                enr_seq: int(o, "seq") as u64,
                                payload_type: PingExtensionType::from(int(o, "ext") as u16),
                                payload: payload(b),
                            }),
                        );
                    }
                    "declined" => reply(answer, Response::Accept(Accept { connection_id: 0, content_keys: vec![2].into() })),
                    "find" => reply(answer, Response::Content(Content::Enrs(listed))),
                    _ => reply(answer, Response::Nodes(Nodes { total: 1, enrs: listed })),
                }
                e["id"] = json!(id);
                e["p"] = json!(p);
                e["what"] = json!(what);
            }
            "add" => {
                let ok = self.w.overlay.add_enr(self.record(int(o, "p"), int(o, "seq"))).is_ok();
                e["ok"] = json!(ok);
            }
            "del" => {
                let ok = self.w.overlay.delete_enr(node_id(int(o, "p") as u8));
                e["ok"] = json!(ok);
            }
            "radius" => self.w.store.lock().radius = distance(int(o, "r")),
            "gossip" => {
                let k = int(o, "k");
                let info = self.w.overlay.propagate_put_content(Key::new(k as u8, self.aff.contains(&k)), vec![k as u8; 9].into());
                e["count"] = json!(info.peer_count);
            }
            "lookup" => {
                let t = int(o, "t");
                if self.looks.iter().any(|l| l.0 == t) {
                    return;
                }
                let ov = self.w.overlay.clone();
                let h = tokio::spawn(async move { ov.lookup_node(node_id(t as u8)).await.iter().map(|e| num(&e.node_id())).collect() });
                self.looks.push((t, h));
            }
            x => panic!("driver: unknown operation {x}"),
        }
        e["x"] = self.effects().await;
        if e["e"] == "gossip" {
            // nobody wants it
            let ids: Vec<i64> = self.pending.iter().filter(|(_, p)| p.kind == "offer").map(|(i, _)| *i).collect();
            for i in ids {
                let p = self.pending.remove(&i).unwrap();
                reply(p.answer, Response::Accept(Accept { connection_id: 0, content_keys: vec![2].into() }));
            }
            self.w.settle().await;
        }
        self.ev.push(e);
        if let Some(m) = take_panic() {
            self.ev.push(panic_event(text(o, "op"), &m));
        }
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let _ = take_panic();
    let ops = p["ops"].as_array().expect("driver: ops");
    let mut c = ops[0]["c"].clone();
    let (ev, len) = crate::world::run(async {
        let store = Store { items: vec![], want: HashSet::new(), cap: 99, radius: distance(int(&c, "r")) };
        let cfg = OverlayConfig {
            utp_transfer_limit: int(&c, "lim") as usize,
            ping_queue_interval: Some(Duration::from_secs(INTERVAL)),
            ..Default::default()
        };
        let real: Option<Box<dyn portalnet::overlay::ping_extensions::PingExtensions + Send + Sync>> = match text(&c, "net") {
            "beacon" => Some(Box::new(beacon::BeaconPingExtensions {})),
            "state" => Some(Box::new(state::StatePingExtensions {})),
            "history" => Some(Box::new(legacy_history::LegacyHistoryPingExtensions {})),
            _ => None,
        };
        use PingExtensionType::*;
        let ext = Extensions { supported: vec![Capabilities, BasicRadius, HistoryRadius, Error], base: vec![HistoryRadius, BasicRadius], real };
        let mut r = Run {
            w: World::new(cfg, store, ext).await,
            peers: {
                let mut l = nums(&c["peers"]);
                l.sort();
                l
            },
            pads: nums(&c["pads"]),
            aff: nums(&c["aff"]).into_iter().collect(),
            pending: BTreeMap::new(),
            streams: vec![],
            looks: vec![],
            next: 0,
            ev: vec![],
        };
        for v in c["have"].as_array().unwrap() {
            let k = int(v, "k");
            r.w.store.lock().items.push((Key::new(k as u8, r.aff.contains(&k)), vec![k as u8; int(v, "len") as usize].into()));
        }
        // lengths of the records, by peer and sequence number
        let peers = nums(&c["peers"]);
        let len: Vec<Vec<usize>> = (1..256)
            .map(|p| if peers.contains(&p) { (1..=int(&c, "seqs")).map(|s| SszEnr(r.record(p, s)).ssz_bytes_len()).collect() } else { vec![] })
            .collect();
        for o in &ops[1..] {
            r.op(o).await;
        }
        let own = SszEnr(r.w.discovery.local_enr()).ssz_bytes_len();
        (r.ev, (len, own))
    });
    c["len"] = json!(len.0);
    c["own"] = json!(len.1);
    json!({"id": id, "cfg": c, "ev": ev})
}
