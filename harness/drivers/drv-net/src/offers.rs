//! Offers, transfers, fall-backs, requests for content and gossip of one node.
use crate::world::*;
use common::*;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        ping_extensions::{
            decode::PingExtension, extension_types::PingExtensionType, extensions::type_1::BasicRadius,
        },
        portal_wire::{Accept, Content, FindContent, Nodes, Offer, Ping, Request, Response},
    },
    OverlayContentKey, RawContentKey,
};
use parking_lot::Mutex;
use portalnet::{
    discovery::UtpPeer,
    overlay::config::{FindContentConfig, OverlayConfig},
};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    sync::Arc,
};
use tokio::{sync::oneshot, task::JoinHandle};
use utp_rs::control::{Open, Plan, Side};

type Answer = oneshot::Sender<Result<Vec<u8>, discv5::RequestError>>;
struct Job {
    stream: Open<UtpPeer>,
}
struct Ask {
    k: i64,
    p: i64,
    look: bool,
    answer: Option<Answer>,
    stream: Option<Open<UtpPeer>>,
}
struct Out {
    p: i64,
    ks: usize,
    serve: bool,
    answer: Option<Answer>,
    stream: Option<Open<UtpPeer>>,
}
struct Look {
    k: i64,
    h: JoinHandle<Value>,
}

struct Run {
    w: World,
    v1: HashSet<i64>,
    aff: HashSet<i64>,
    look: HashSet<i64>,
    jobs: BTreeMap<i64, Job>,
    asks: BTreeMap<i64, Ask>,
    outs: BTreeMap<i64, Out>,
    looks: Vec<Look>,
    next: [i64; 3],
    ev: Vec<Value>,
}

/// Far away from every key.
fn peer_id(p: i64) -> NodeId {
    node_id(128 + p as u8)
}
fn nums(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
const CODES: [&str; 6] = ["accept", "declined", "stored", "radius", "limit", "progress"];

/// An SSZ bit list.
fn bits(b: &[u8]) -> Option<Vec<bool>> {
    let last = *b.last()?;
    if last == 0 {
        return None;
    }
    let n = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
    Some((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
}
fn bit_bytes(v: &[bool]) -> Vec<u8> {
    let mut b = vec![0u8; v.len() / 8 + 1];
    for (i, x) in v.iter().enumerate() {
        b[i / 8] |= (*x as u8) << (i % 8);
    }
    b[v.len() / 8] |= 1 << (v.len() % 8);
    b
}

impl Run {
    fn key(&self, k: i64) -> Key {
        Key::new(k as u8, self.aff.contains(&k))
    }
    fn raw(&self, k: i64) -> RawContentKey {
        if k == 0 {
            vec![9u8].into()
        } else {
            self.key(k).to_bytes()
        }
    }

    /// What happened besides the direct answer.  `expect` picks the stream that belongs to the
    /// operation itself.
    async fn effects(&mut self, expect: impl Fn(&Open<UtpPeer>) -> bool) -> (Value, Option<Open<UtpPeer>>) {
        self.w.settle().await;
        let mut own = None;
        let mut stray = 0;
        for o in self.w.opened() {
            if own.is_none() && expect(&o) {
                own = Some(o);
            } else {
                stray += 1;
            }
        }
        let (mut asks, mut gossip) = (vec![], vec![]);
        let mut strange = 0;
        for s in self.w.sent() {
            let p = num(&s.to) - 128;
            match s.req {
                Request::FindContent(f) => {
                    let k = Key::try_from_bytes(&f.content_key).map(|k| k.num()).unwrap_or(0);
                    asks.push((k, p, s.answer));
                }
                Request::Offer(o) => {
                    let ks: Vec<i64> =
                        o.content_keys.iter().map(|k| Key::try_from_bytes(k).map(|k| k.num()).unwrap_or(0)).collect();
                    gossip.push((p, ks, s.answer));
                }
                Request::FindNodes(_) => reply(s.answer, Response::Nodes(Nodes { total: 1, enrs: vec![] })),
                _ => strange += 1,
            }
        }
        asks.sort_by_key(|a| (a.0, a.1));
        gossip.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
        let asks: Vec<Value> = asks
            .into_iter()
            .map(|(k, p, answer)| {
                self.next[1] += 1;
                let look = self.look.contains(&k);
                self.asks.insert(self.next[1], Ask { k, p, look, answer: Some(answer), stream: None });
                json!({"id": self.next[1], "k": k, "p": p})
            })
            .collect();
        let gossip: Vec<Value> = gossip
            .into_iter()
            .map(|(p, ks, answer)| {
                self.next[2] += 1;
                self.outs.insert(self.next[2], Out { p, ks: ks.len(), serve: false, answer: Some(answer), stream: None });
                json!({"id": self.next[2], "p": p, "ks": ks})
            })
            .collect();
        let mut looked = vec![];
        let mut i = 0;
        while i < self.looks.len() {
            if self.looks[i].h.is_finished() {
                let l = self.looks.remove(i);
                looked.push(json!({"k": l.k, "res": l.h.await.unwrap_or(json!({"k": 0, "q": "none", "big": false, "n": 0}))}));
            } else {
                i += 1;
            }
        }
        let st: Vec<Value> = self.w.store.lock().items.iter().map(|(k, v)| json!({"k": k.num(), "v": shown(v)})).collect();
        (json!({"asks": asks, "gossip": gossip, "looked": looked, "st": st, "stray": stray + strange}), own)
    }

    /// Performs one operation; operations on things that do not exist are left out.
    async fn op(&mut self, o: &Value) {
        let e = match text(o, "op") {
            "offer" => {
                let p = int(o, "p");
                let ks = nums(&o["ks"]);
                let keys = ks.iter().map(|k| self.raw(*k)).collect();
                let r = self.w.request(peer_id(p), Request::Offer(Offer { content_keys: keys })).await;
                let (mut res, mut codes, mut conn) = ("none", vec![], 0u16);
                if let Some(Ok(Response::Accept(a))) = r {
                    conn = u16::from_be(a.connection_id);
                    res = "codes";
                    if self.v1.contains(&p) {
                        codes = a.content_keys.iter().map(|c| CODES.get(*c as usize).copied().unwrap_or("other")).collect();
                    } else {
                        match bits(&a.content_keys) {
                            Some(b) => codes = b.into_iter().map(|b| if b { "yes" } else { "no" }).collect(),
                            None => res = "garbled",
                        }
                    }
                }
                let id = peer_id(p);
                let (x, own) = self.effects(|s| s.side == Side::Accept && s.cid.send == conn && s.cid.recv == conn.wrapping_add(1) && s.cid.peer_id == id).await;
                let mut job = 0;
                if let Some(stream) = own {
                    self.next[0] += 1;
                    job = self.next[0];
                    self.jobs.insert(job, Job { stream });
                }
                json!({"e": "offer", "p": p, "ks": ks, "res": res, "codes": codes, "conn": conn != 0, "job": job, "x": x})
            }
            "recv" => {
                let j = int(o, "j");
                let Some(job) = self.jobs.remove(&j) else { return };
                let vs: Vec<_> = o["vs"].as_array().map(|a| a.iter().map(from_shown).collect()).unwrap_or_default();
                let _ = job.stream.answer.send(match text(o, "how") {
                    "items" => Ok(read_plan(Ok(framed(&vs)))),
                    "garbled" => Ok(read_plan(Ok(vec![5, 1, 2]))),
                    "broken" => Ok(read_plan(Err(broken()))),
                    _ => Err(broken()),
                });
                let (x, _) = self.effects(|_| false).await;
                json!({"e": "recv", "j": j, "how": o["how"], "vs": o["vs"], "x": x})
            }
            "answer" => {
                let a = int(o, "a");
                let mut how = text(o, "how");
                let streaming = self.asks.values().filter(|x| x.look && x.stream.is_some()).map(|x| x.k).collect::<Vec<_>>();
                let Some(ask) = self.asks.get_mut(&a) else { return };
                if ask.look && (how == "error" || how == "garbled" || streaming.contains(&ask.k)) {
                    how = "enrs";
                }
                let Some(answer) = ask.answer.take() else { return };
                let conn = 7000 + a as u16;
                match how {
                    "content" => reply(answer, Response::Content(Content::Content(from_shown(&o["v"])))),
                    "enrs" => reply(answer, Response::Content(Content::Enrs(vec![]))),
                    "conn" => reply(answer, Response::Content(Content::ConnectionId(conn.to_be()))),
                    "garbled" => {
                        let _ = answer.send(Ok(vec![0xee, 1]));
                    }
                    _ => {
                        let _ = answer.send(Err(discv5::RequestError::Timeout));
                    }
                }
                let (p, k) = (peer_id(ask.p), ask.k);
                let (x, own) = self.effects(|s| s.side == Side::Connect && s.cid.recv == conn && s.cid.send == conn + 1 && s.cid.peer_id == p).await;
                let opened = own.is_some();
                if opened {
                    self.asks.get_mut(&a).unwrap().stream = own;
                } else {
                    self.asks.remove(&a);
                }
                json!({"e": "answer", "a": a, "k": k, "how": how, "v": o["v"], "opened": opened, "x": x})
            }
            "recvask" => {
                let a = int(o, "a");
                let Some(ask) = self.asks.get_mut(&a) else { return };
                let Some(s) = ask.stream.take() else { return };
                let framing = self.v1.contains(&ask.p);
                self.asks.remove(&a);
                let v = from_shown(&o["v"]);
                // Without a length in front, nothing tells such bytes from an item.
                let how = match text(o, "how") {
                    "two" | "garbled" if !framing => "broken",
                    h => h,
                };
                let _ = s.answer.send(match how {
                    "value" => Ok(read_plan(Ok(if framing { framed(&[v]) } else { v.to_vec() }))),
                    "two" => Ok(read_plan(Ok(framed(&[v.clone(), v])))),
                    "garbled" => Ok(read_plan(Ok(vec![5, 1, 2]))),
                    "broken" => Ok(read_plan(Err(broken()))),
                    _ => Err(broken()),
                });
                let (x, _) = self.effects(|_| false).await;
                json!({"e": "recvask", "a": a, "how": how, "v": o["v"], "x": x})
            }
            "find" => {
                let (p, k) = (int(o, "p"), int(o, "k"));
                let r = self.w.request(peer_id(p), Request::FindContent(FindContent { content_key: self.raw(k) })).await;
                let nothing = json!({"k": 0, "q": "none", "big": false, "n": 0});
                let (mut res, mut v, mut names, mut conn) = ("none", nothing, vec![], 0);
                match r {
                    Some(Ok(Response::Content(Content::Content(c)))) => {
                        res = "content";
                        v = shown(&c);
                    }
                    Some(Ok(Response::Content(Content::ConnectionId(c)))) => {
                        res = "conn";
                        conn = u16::from_be(c);
                    }
                    Some(Ok(Response::Content(Content::Enrs(e)))) => {
                        res = "enrs";
                        names = e.iter().map(|e| num(&e.node_id()) - 128).collect();
                    }
                    _ => {}
                }
                let id = peer_id(p);
                let (x, own) = self.effects(|s| s.side == Side::Accept && s.cid.send == conn && s.cid.recv == conn.wrapping_add(1) && s.cid.peer_id == id).await;
                let mut out = 0;
                if own.is_some() {
                    self.next[2] += 1;
                    out = self.next[2];
                    self.outs.insert(out, Out { p, ks: 1, serve: true, answer: None, stream: own });
                }
                json!({"e": "find", "p": p, "k": k, "res": res, "v": v, "names": names, "out": out, "x": x})
            }
            "take" => {
                let id = int(o, "o");
                let Some(out) = self.outs.get_mut(&id) else { return };
                let Some(answer) = out.answer.take() else { return };
                let conn = 8000 + id as u16;
                let mut yes: Vec<bool> = o["codes"].as_array().map(|a| a.iter().map(|x| x.as_bool().unwrap()).collect()).unwrap_or_default();
                yes.resize(out.ks, true);
                let how = text(o, "how");
                let v1 = self.v1.contains(&out.p);
                let some = yes.iter().any(|x| *x);
                match how {
                    "codes" => {
                        let keys = if v1 { yes.iter().map(|y| if *y { 0 } else { 5 }).collect() } else { bit_bytes(&yes) };
                        reply(answer, Response::Accept(Accept { connection_id: if some { conn.to_be() } else { 0 }, content_keys: keys.into() }));
                    }
                    "badcodes" => {
                        let keys = if v1 { vec![0; 65] } else { vec![0] };
                        reply(answer, Response::Accept(Accept { connection_id: conn.to_be(), content_keys: keys.into() }));
                    }
                    "garbled" => {
                        let _ = answer.send(Ok(vec![0xee, 1]));
                    }
                    _ => {
                        let _ = answer.send(Err(discv5::RequestError::Timeout));
                    }
                }
                let p = peer_id(out.p);
                let (x, own) = self.effects(|s| s.side == Side::Connect && s.cid.recv == conn && s.cid.send == conn + 1 && s.cid.peer_id == p).await;
                let opened = own.is_some();
                if opened {
                    self.outs.get_mut(&id).unwrap().stream = own;
                } else {
                    self.outs.remove(&id);
                }
                json!({"e": "take", "o": id, "how": how, "codes": yes, "opened": opened, "x": x})
            }
            "sent" => {
                let id = int(o, "o");
                let Some(out) = self.outs.get_mut(&id) else { return };
                let Some(s) = out.stream.take() else { return };
                let framing = !out.serve || self.v1.contains(&out.p);
                self.outs.remove(&id);
                let how = text(o, "how").to_string();
                let seen: Arc<Mutex<Option<Vec<u8>>>> = Default::default();
                let keep = seen.clone();
                let h = how.clone();
                let (tx, close) = oneshot::channel();
                let _ = tx.send(if how == "unclosed" { Err(broken()) } else { Ok(()) });
                let _ = s.answer.send(if how == "unopened" {
                    Err(broken())
                } else {
                    Ok(Plan {
                        write: Some(Box::new(move |b| {
                            *keep.lock() = Some(b.to_vec());
                            match h.as_str() {
                                "broken" => Err(broken()),
                                "short" => Ok(b.len() - 1),
                                _ => Ok(b.len()),
                            }
                        })),
                        close: Some(close),
                        ..Default::default()
                    })
                });
                let (x, _) = self.effects(|_| false).await;
                let wrote: Vec<Value> = match seen.lock().take() {
                    None => vec![],
                    Some(b) if framing => unframed(&b).unwrap_or(vec![vec![]]).iter().map(|v| shown(v)).collect(),
                    Some(b) => vec![shown(&b)],
                };
                json!({"e": "sent", "o": id, "how": how, "wrote": wrote, "x": x})
            }
            "lookup" => {
                let k = int(o, "k");
                if self.looks.iter().any(|l| l.k == k) || !self.look.contains(&k) {
                    return;
                }
                let ov = self.w.overlay.clone();
                let key = self.key(k);
                let h = tokio::spawn(async move {
                    match ov.lookup_content(key, FindContentConfig::default()).await {
                        Ok(Ok((v, _, _))) => shown(&v),
                        _ => json!({"k": 0, "q": "none", "big": false, "n": 0}),
                    }
                });
                self.looks.push(Look { k, h });
                let (x, _) = self.effects(|_| false).await;
                json!({"e": "lookup", "k": k, "x": x})
            }
            "plant" => {
                let k = int(o, "k");
                let key = self.key(k);
                {
                    use trin_storage::ContentStore;
                    let _ = self.w.store.lock().put(key, from_shown(&o["v"]));
                }
                let (x, _) = self.effects(|_| false).await;
                json!({"e": "plant", "k": k, "x": x})
            }
            x => panic!("driver: unknown operation {x}"),
        };
        self.ev.push(e);
        if let Some(m) = take_panic() {
            self.ev.push(panic_event(text(o, "op"), &m));
        }
    }

    /// Ends whatever is still going on.
    async fn drain(&mut self) {
        for _ in 0..200 {
            let v = json!({"k": 0, "q": "bad", "big": false, "n": 0});
            let o = if let Some((j, _)) = self.jobs.iter().next() {
                json!({"op": "recv", "j": j, "how": "broken", "vs": []})
            } else if let Some((a, x)) = self.asks.iter().next() {
                if x.stream.is_some() {
                    json!({"op": "recvask", "a": a, "how": "broken", "v": v})
                } else {
                    json!({"op": "answer", "a": a, "how": if x.look { "enrs" } else { "error" }, "v": v})
                }
            } else if let Some((i, x)) = self.outs.iter().next() {
                if x.stream.is_some() {
                    json!({"op": "sent", "o": i, "how": "ok"})
                } else {
                    json!({"op": "take", "o": i, "how": "codes", "codes": vec![false; x.ks]})
                }
            } else {
                return;
            };
            self.op(&o).await;
        }
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let _ = take_panic();
    let ops = p["ops"].as_array().expect("driver: ops");
    let c = ops[0]["c"].clone();
    let ev = crate::world::run(async {
        let aff: HashSet<i64> = nums(&c["aff"]).into_iter().collect();
        let store = Store {
            items: vec![],
            want: nums(&c["want"]).iter().map(|k| Key::new(*k as u8, true).id).collect(),
            cap: int(&c, "cap") as usize,
            radius: max(),
        };
        let cfg = OverlayConfig {
            utp_transfer_limit: int(&c, "lim") as usize,
            gossip_dropped: c["gd"].as_bool().unwrap(),
            disable_poke: !c["poke"].as_bool().unwrap(),
            ..Default::default()
        };
        let ext = Extensions {
            supported: vec![PingExtensionType::Capabilities, PingExtensionType::BasicRadius],
            base: vec![PingExtensionType::BasicRadius],
            real: None,
        };
        let mut r = Run {
            w: World::new(cfg, store, ext).await,
            v1: nums(&c["v1"]).into_iter().collect(),
            aff,
            look: nums(&c["look"]).into_iter().collect(),
            jobs: BTreeMap::new(),
            asks: BTreeMap::new(),
            outs: BTreeMap::new(),
            looks: vec![],
            next: [0; 3],
            ev: vec![],
        };
        for v in c["have"].as_array().unwrap() {
            let k = r.key(int(v, "k"));
            r.w.store.lock().items.push((k, from_shown(v)));
        }
        let near: Vec<i64> = nums(&c["near"]);
        for p in nums(&c["peers"]) {
            let e = record(128 + p as u8, 1, if r.v1.contains(&p) { &[0, 1] } else { &[0] }, 0);
            r.w.session(e);
            let data_radius = if near.contains(&p) { max() } else { radius(0) };
            let radius = PingExtension::BasicRadius(BasicRadius { data_radius });
            r.w.request(
                peer_id(p),
                Request::Ping(Ping { enr_seq: 1, payload_type: PingExtensionType::BasicRadius, payload: radius.into() }),
            )
            .await;
        }
        for o in &ops[1..] {
            match text(o, "op") {
                "drain" => r.drain().await,
                _ => r.op(o).await,
            }
        }
        r.ev
    });
    json!({"id": id, "cfg": c, "ev": ev})
}
