//! Lookups of nodes and of content as the overlay service runs them, several at a time.
use crate::world::*;
use common::*;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        enr::SszEnr,
        ping_extensions::extension_types::PingExtensionType,
        portal_wire::{Content, Nodes, Request, Response},
    },
    OverlayContentKey,
};
use portalnet::{
    discovery::UtpPeer,
    overlay::config::{FindContentConfig, OverlayConfig},
    overlay::errors::OverlayRequestError,
};
use serde_json::{json, Value};
use std::{collections::BTreeMap, time::Duration};
use tokio::{sync::oneshot, task::JoinHandle};
use trin_storage::ContentStore;
use utp_rs::control::{Open, Side};

type Answer = oneshot::Sender<Result<Vec<u8>, discv5::RequestError>>;
struct Asked {
    p: i64,
    nodes: bool,
    answer: Answer,
}
struct Run {
    w: World,
    vers: BTreeMap<i64, Vec<u8>>,
    asked: BTreeMap<i64, Asked>,
    streams: BTreeMap<i64, (i64, Open<UtpPeer>)>,
    looks: Vec<(String, i64, JoinHandle<Value>)>,
    kept: Vec<Answer>,
    peers: BTreeMap<i64, i64>,
    next: i64,
    ev: Vec<Value>,
}

fn nums(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
fn id_num(id: &[u8; 32]) -> i64 {
    id[0] as i64
}
fn nothing() -> Value {
    json!({"k": 0, "q": "none", "big": false, "n": 0})
}

impl Run {
    fn record(&self, p: i64) -> discv5::Enr {
        if p == 0 {
            return self.w.discovery.local_enr();
        }
        record(p as u8, 1, self.vers.get(&p).map(|v| &v[..]).unwrap_or(&[0, 1]), 0)
    }

    async fn effects(&mut self) -> Value {
        // every item in line needs its turn
        for _ in 0..6 {
            self.w.settle().await;
        }
        let (mut out, mut pokes, mut opened) = (vec![], vec![], vec![]);
        let mut stray = 0;
        for s in self.w.sent() {
            let p = num(&s.to);
            match s.req {
                Request::FindContent(f) => {
                    let t = Key::try_from_bytes(&f.content_key).map(|k| k.num()).unwrap_or(-1);
                    self.next += 1;
                    out.push(json!({"id": self.next, "p": p, "nodes": false, "t": t, "ds": []}));
                    self.asked.insert(self.next, Asked { p, nodes: false, answer: s.answer });
                }
                Request::FindNodes(f) => {
                    self.next += 1;
                    out.push(json!({"id": self.next, "p": p, "nodes": true, "t": 0, "ds": f.distances}));
                    self.asked.insert(self.next, Asked { p, nodes: true, answer: s.answer });
                }
                Request::Offer(o) => {
                    let t = o.content_keys.first().and_then(|k| Key::try_from_bytes(k).ok()).map_or(-1, |k| k.num());
                    pokes.push(json!({"p": p, "t": t}));
                    self.kept.push(s.answer);
                }
                _ => self.kept.push(s.answer),
            }
        }
        for o in self.w.opened() {
            let id = o.cid.recv as i64 - 7000;
            match self.peers.get(&id) {
                Some(p) if o.side == Side::Connect && o.cid.send == o.cid.recv.wrapping_add(1) && o.cid.peer_id == node_id(*p as u8) => {
                    opened.push(id);
                    let p = *p;
                    self.streams.insert(id, (p, o));
                }
                _ => stray += 1,
            }
        }
        let mut done = vec![];
        let mut i = 0;
        while i < self.looks.len() {
            if self.looks[i].2.is_finished() {
                let (kind, t, h) = self.looks.remove(i);
                let mut v = h.await.unwrap_or(json!({"res": "lost", "v": nothing(), "utp": false, "from": -1, "ps": []}));
                v["nodes"] = json!(kind == "nodes");
                v["t"] = json!(t);
                done.push(v);
            } else {
                i += 1;
            }
        }
        json!({"out": out, "pokes": pokes, "opened": opened, "done": done, "stray": stray})
    }

    async fn op(&mut self, o: &Value) {
        let mut e = o.clone();
        e["e"] = o["op"].clone();
        e.as_object_mut().unwrap().remove("op");
        match text(o, "op") {
            "look" => {
                let (kind, t) = (text(o, "kind").to_string(), int(o, "t"));
                let nodes = kind == "nodes";
                if self.looks.iter().any(|l| (l.0 == "nodes") == nodes && (nodes || l.1 == t)) {
                    return;
                }
                let tab: Vec<i64> = (1..16)
                    .filter(|p| match self.w.overlay.kbuckets().entry(node_id(*p as u8)) {
                        portalnet::types::kbucket::Entry::Present(_, s) => s.is_connected(),
                        _ => false,
                    })
                    .collect();
                e["tab"] = json!(tab);
                let ov = self.w.overlay.clone();
                let trace = kind == "trace";
                let h = if nodes {
                    tokio::spawn(async move {
                        let l = ov.lookup_node(node_id(t as u8)).await;
                        let ps: Vec<i64> = l.iter().map(|e| num(&e.node_id())).collect();
                        json!({"res": "nodes", "v": nothing(), "utp": false, "from": -1, "ps": ps})
                    })
                } else {
                    tokio::spawn(async move {
                        let cfg = FindContentConfig { is_trace: trace, ..Default::default() };
                        match ov.lookup_content(Key::new(t as u8, true), cfg).await {
                            Ok(Ok((v, utp, tr))) => {
                                let from = tr.and_then(|t| t.received_from).map_or(-1, |n| id_num(&n.raw()));
                                json!({"res": "content", "v": shown(&v), "utp": utp, "from": from, "ps": []})
                            }
                            Ok(Err(OverlayRequestError::ContentNotFound { .. })) => {
                                json!({"res": "none", "v": nothing(), "utp": false, "from": -1, "ps": []})
                            }
                            _ => json!({"res": "error", "v": nothing(), "utp": false, "from": -1, "ps": []}),
                        }
                    })
                };
                self.looks.push((kind, t, h));
            }
            "reply" => {
                // the request counted from the oldest that is open
                let n = self.asked.len() as i64;
                if n == 0 {
                    return;
                }
                let id = *self.asked.keys().nth((int(o, "i") % n) as usize).unwrap();
                let a = self.asked.remove(&id).unwrap();
                e["id"] = json!(id);
                e["p"] = json!(a.p);
                e["nodes"] = json!(a.nodes);
                let enrs: Vec<SszEnr> = nums(&o["rs"]).iter().filter(|p| !(a.nodes && **p == 0)).map(|p| SszEnr(self.record(*p))).collect();
                e["rs"] = json!(enrs.iter().map(|e| num(&e.node_id())).collect::<Vec<_>>());
                let mut how = text(o, "how").to_string();
                if a.nodes && how != "error" && how != "garbled" {
                    how = "enrs".into();
                }
                match how.as_str() {
                    "enrs" if a.nodes => reply(a.answer, Response::Nodes(Nodes { total: 1, enrs })),
                    "enrs" => reply(a.answer, Response::Content(Content::Enrs(enrs))),
                    "content" => reply(a.answer, Response::Content(Content::Content(from_shown(&o["v"])))),
                    "conn" => {
                        self.peers.insert(id, a.p);
                        reply(a.answer, Response::Content(Content::ConnectionId((7000 + id as u16).to_be())))
                    }
                    "garbled" => {
                        let _ = a.answer.send(Ok(vec![0xee, 1]));
                    }
                    _ => {
                        let _ = a.answer.send(Err(discv5::RequestError::Timeout));
                    }
                }
                e["how"] = json!(how);
            }
            "stream" => {
                let n = self.streams.len() as i64;
                if n == 0 {
                    return;
                }
                let id = *self.streams.keys().nth((int(o, "i") % n) as usize).unwrap();
                let (p, s) = self.streams.remove(&id).unwrap();
                e["id"] = json!(id);
                e["p"] = json!(p);
                let framing = self.vers.get(&p).map_or(true, |v| v.contains(&1));
                let v = from_shown(&o["v"]);
                let how = match text(o, "how") {
                    "two" | "garbled" if !framing => "broken",
                    h => h,
                };
                e["how"] = json!(how);
                let _ = s.answer.send(match how {
                    "value" => Ok(read_plan(Ok(if framing { framed(&[v]) } else { v.to_vec() }))),
                    "two" => Ok(read_plan(Ok(framed(&[v.clone(), v])))),
                    "garbled" => Ok(read_plan(Ok(vec![5, 1, 2]))),
                    "broken" => Ok(read_plan(Err(broken()))),
                    _ => Err(broken()),
                });
            }
            "del" => {
                let id: NodeId = node_id(int(o, "p") as u8);
                e["was"] = json!(self.w.overlay.delete_enr(id));
            }
            "put" => {
                if self.looks.iter().any(|l| l.0 != "nodes" && l.1 == int(o, "t")) {
                    return;
                }
                let _ = self.w.store.lock().put(Key::new(int(o, "t") as u8, true), from_shown(&o["v"]));
            }
            x => panic!("driver: unknown operation {x}"),
        }
        e["x"] = self.effects().await;
        self.ev.push(e);
        if let Some(m) = take_panic() {
            self.ev.push(panic_event(text(o, "op"), &m));
        }
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let _ = take_panic();
    let ops = p["ops"].as_array().expect("driver: ops");
    let c = ops[0]["c"].clone();
    let ev = crate::world::run(async {
        let store = Store { items: vec![], want: Default::default(), cap: 100, radius: max() };
        let cfg = OverlayConfig {
            query_parallelism: int(&c, "alpha") as usize,
            query_num_results: int(&c, "k") as usize,
            query_peer_timeout: Duration::from_secs(3600),
            query_timeout: Duration::from_secs(3600),
            disable_poke: false,
            utp_transfer_limit: 1000,
            ..Default::default()
        };
        let ext = Extensions { supported: vec![PingExtensionType::BasicRadius], base: vec![PingExtensionType::BasicRadius], real: None };
        let mut r = Run {
            w: World::new(cfg, store, ext).await,
            vers: BTreeMap::new(),
            asked: BTreeMap::new(),
            streams: BTreeMap::new(),
            looks: vec![],
            kept: vec![],
            peers: BTreeMap::new(),
            next: 0,
            ev: vec![],
        };
        for p in nums(&c["old"]) {
            r.vers.insert(p, vec![0]);
        }
        for p in nums(&c["odd"]) {
            r.vers.insert(p, vec![9]);
        }
        for p in nums(&c["tab"]) {
            let e = r.record(p);
            if r.w.overlay.add_enr(e).is_err() {
                panic!("driver: {p} not taken into the table");
            }
        }
        for o in &ops[1..] {
            r.op(o).await;
        }
        r.ev
    });
    json!({"id": id, "cfg": c, "ev": ev})
}
