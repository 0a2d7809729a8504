//! Requests to one named peer, made on behalf of the node's user, several at a time.
use crate::world::*;
use common::*;
use discv5::RequestError;
use ethportal_api::{
    types::{
        accept_code::AcceptCodeList,
        enr::SszEnr,
        ping_extensions::{
            decode::PingExtension,
            extension_types::PingExtensionType,
            extensions::{type_0::ClientInfoRadiusCapabilities, type_1::BasicRadius},
        },
        portal_wire::{Accept, Content, Nodes, OfferTrace, OfferTraceMultipleItems, Pong, Request, Response},
    },
    OverlayContentKey, RawContentValue,
};
use parking_lot::Mutex;
use portalnet::{discovery::UtpPeer, overlay::config::OverlayConfig};
use serde_json::{json, Value};
use std::{collections::BTreeMap, sync::Arc};
use tokio::{sync::oneshot, task::JoinHandle};
use utp_rs::control::{Open, Plan, Side};

type Answer = oneshot::Sender<Result<Vec<u8>, RequestError>>;
struct Call {
    kind: String,
    p: i64,
    k: i64,
    n: usize,
    request: Option<Answer>,
    stream: Option<Open<UtpPeer>>,
    result: Option<JoinHandle<Value>>,
}
struct Run {
    w: World,
    vers: BTreeMap<i64, Vec<u8>>,
    calls: BTreeMap<i64, Call>,
    kept: Vec<Answer>,
    next: i64,
    ev: Vec<Value>,
}

fn nums(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}
fn nothing() -> Value {
    json!({"k": 0, "q": "none", "big": false, "n": 0})
}
fn result(res: &str) -> Value {
    json!({"res": res, "v": nothing(), "utp": false, "names": [], "codes": [], "seq": 0, "r": 0})
}
fn with_codes(l: &AcceptCodeList) -> Value {
    let mut v = result("codes");
    v["codes"] = json!(l.iter().map(|c| u8::from(*c) as i64).collect::<Vec<_>>());
    v
}
fn payload(ext: i64, r: i64) -> PingExtension {
    let data_radius = radius(r as u8);
    match ext {
        0 => PingExtension::Capabilities(ClientInfoRadiusCapabilities::new(data_radius, vec![PingExtensionType::Capabilities])),
        _ => PingExtension::BasicRadius(BasicRadius { data_radius }),
    }
}
/// The radius in a payload, as its first byte.
fn radius_in(p: Option<PingExtension>) -> i64 {
    let d = match p {
        Some(PingExtension::Capabilities(x)) => x.data_radius,
        Some(PingExtension::BasicRadius(x)) => x.data_radius,
        Some(PingExtension::HistoryRadius(x)) => x.data_radius,
        _ => return -1,
    };
    (0..=255).find(|r| radius(*r as u8) == d).unwrap_or(-2)
}
fn wire(kind: &str) -> &str {
    match kind {
        "trace" | "one" => "offer",
        k => k,
    }
}
/// The kind of a request, as far as it can be one of a user.
fn seen(to: i64, req: &Request) -> Value {
    let mut v = json!({"p": to, "kind": "", "ks": [], "ds": [], "ext": 0, "r": 0});
    let keys = |ks: &[ethportal_api::RawContentKey]| ks.iter().map(|k| Key::try_from_bytes(k).map_or(-1, |k| k.num())).collect::<Vec<_>>();
    match req {
        Request::Ping(x) => {
            v["kind"] = json!("ping");
            v["ext"] = json!(u16::from(x.payload_type));
            v["r"] = json!(radius_in(PingExtension::decode_ssz(x.payload_type, x.payload.clone()).ok()));
        }
        Request::FindNodes(x) => {
            v["kind"] = json!("nodes");
            v["ds"] = json!(x.distances);
        }
        Request::FindContent(x) => {
            v["kind"] = json!("content");
            v["ks"] = json!(keys(std::slice::from_ref(&x.content_key)));
        }
        Request::Offer(x) => {
            v["kind"] = json!("offer");
            v["ks"] = json!(keys(&x.content_keys));
        }
        _ => v["kind"] = json!("other"),
    }
    v
}

impl Run {
    fn record(&self, p: i64) -> discv5::Enr {
        record(p as u8, 1, self.vers.get(&p).map(|v| &v[..]).unwrap_or(&[0, 1]), 0)
    }
    fn old(&self, p: i64) -> bool {
        self.vers.get(&p).is_some_and(|v| !v.contains(&1))
    }

    async fn effects(&mut self, call: i64) -> Value {
        for _ in 0..3 {
            self.w.settle().await;
        }
        let mut out = vec![];
        for s in self.w.sent() {
            let v = seen(num(&s.to), &s.req);
            match self.calls.get_mut(&call) {
                Some(c) if c.request.is_none() && c.p == num(&s.to) && v["kind"] == wire(&c.kind) => c.request = Some(s.answer),
                _ => self.kept.push(s.answer),
            }
            out.push(v);
        }
        let (mut opened, mut stray) = (vec![], 0);
        for o in self.w.opened() {
            let id = o.cid.recv as i64 - 7000;
            match self.calls.get_mut(&id) {
                Some(c) if o.side == Side::Connect && o.cid.send == o.cid.recv.wrapping_add(1) && o.cid.peer_id == node_id(c.p as u8) && c.stream.is_none() => {
                    opened.push(id);
                    c.stream = Some(o);
                }
                _ => stray += 1,
            }
        }
        let mut done = vec![];
        for (id, c) in self.calls.iter_mut() {
            if c.result.as_ref().is_some_and(|h| h.is_finished()) {
                let mut v = c.result.take().unwrap().await.unwrap_or(result("lost"));
                v["call"] = json!(id);
                done.push(v);
            }
        }
        json!({"out": out, "opened": opened, "done": done, "stray": stray})
    }

    fn start(&mut self, o: &Value) -> JoinHandle<Value> {
        let ov = self.w.overlay.clone();
        let enr = self.record(int(o, "p"));
        let keys: Vec<Key> = nums(&o["ks"]).iter().map(|k| Key::new(*k as u8, true)).collect();
        let items: Vec<_> = keys.iter().zip(o["vs"].as_array().unwrap()).map(|(k, v)| (k.to_bytes(), from_shown(v))).collect();
        let (ext, r, ds) = (int(o, "ext"), int(o, "r"), nums(&o["ds"]).iter().map(|d| *d as u16).collect());
        match text(o, "kind") {
            "ping" => tokio::spawn(async move {
                let basic = || PingExtension::BasicRadius(BasicRadius { data_radius: radius(r as u8) });
                let (kind, with) = match ext {
                    0 => (None, None),
                    1 => (Some(PingExtensionType::BasicRadius), None),
                    2 => (Some(PingExtensionType::BasicRadius), Some(basic())),
                    3 => (Some(PingExtensionType::Capabilities), Some(basic())),
                    4 => (None, Some(basic())),
                    5 => (Some(PingExtensionType::Error), None),
                    6 => (Some(PingExtensionType::NonSupportedExtension(77)), None),
                    _ => (Some(PingExtensionType::HistoryRadius), None),
                };
                match ov.send_ping(enr, kind, with).await {
                    Ok(p) => {
                        let mut v = result("pong");
                        v["seq"] = json!(p.enr_seq);
                        v["r"] = json!(radius_in(PingExtension::decode_ssz(p.payload_type, p.payload.clone()).ok()));
                        v
                    }
                    Err(_) => result("error"),
                }
            }),
            "nodes" => tokio::spawn(async move {
                match ov.send_find_nodes(enr, ds).await {
                    Ok(n) => {
                        let mut v = result("nodes");
                        v["names"] = json!(n.enrs.iter().map(|e| num(&e.node_id())).collect::<Vec<_>>());
                        v
                    }
                    Err(_) => result("error"),
                }
            }),
            "content" => {
                let k = keys[0].to_bytes();
                tokio::spawn(async move {
                    match ov.send_find_content(enr, k).await {
                        Ok((Content::Content(c), utp)) => {
                            let mut v = result("content");
                            v["v"] = shown(&c);
                            v["utp"] = json!(utp);
                            v
                        }
                        Ok((Content::Enrs(l), utp)) => {
                            let mut v = result("enrs");
                            v["names"] = json!(l.iter().map(|e| num(&e.node_id())).collect::<Vec<_>>());
                            v["utp"] = json!(utp);
                            v
                        }
                        Ok(_) => result("other"),
                        Err(_) => result("error"),
                    }
                })
            }
            "offer" => tokio::spawn(async move { ov.send_offer(enr, items).await.map_or(result("error"), |l| with_codes(&l)) }),
            "trace" => tokio::spawn(async move {
                match ov.send_offer_trace_with_multiple_items(enr, items).await {
                    Ok(OfferTraceMultipleItems::Success(l)) => with_codes(&l),
                    Ok(OfferTraceMultipleItems::Failed) => result("failed"),
                    Err(_) => result("error"),
                }
            }),
            "one" => {
                let (k, v) = items[0].clone();
                tokio::spawn(async move {
                    match ov.send_offer_trace(enr, k, v).await {
                        Ok(OfferTrace::Success(c)) => {
                            let mut v = result("codes");
                            v["codes"] = json!([u8::from(c)]);
                            v
                        }
                        Ok(OfferTrace::Failed) => result("failed"),
                        Err(_) => result("error"),
                    }
                })
            }
            x => panic!("driver: unknown call {x}"),
        }
    }

    fn answer(&mut self, id: i64, a: Answer, o: &Value, e: &mut Value) {
        let c = &self.calls[&id];
        let old = self.old(c.p);
        if c.kind == "content" {
            e["v"]["k"] = json!((c.k + e["v"]["k"].as_i64().unwrap()) % 16);
        }
        let v = from_shown(&e["v"]);
        let enrs: Vec<SszEnr> = nums(&o["rs"]).iter().map(|p| SszEnr(self.record(*p))).collect();
        let codes: Vec<i64> = nums(&o["codes"]).into_iter().cycle().take(c.n).collect();
        e["codes"] = json!(codes);
        let conn = (7000 + id as u16).to_be();
        let ext = int(e, "ext");
        let pong = |ext| Response::Pong(Pong { enr_seq: int(o, "seq") as u64, payload_type: if ext == 0 { PingExtensionType::Capabilities } else { PingExtensionType::BasicRadius }, payload: payload(ext, int(o, "r")).into() });
        let accept = || {
            let content_keys = if old {
                let mut b = vec![0u8; codes.len() / 8 + 1];
                for (i, c) in codes.iter().enumerate() {
                    b[i / 8] |= ((*c == 0) as u8) << (i % 8);
                }
                b[codes.len() / 8] |= 1 << (codes.len() % 8);
                b
            } else {
                codes.iter().map(|c| *c as u8).collect()
            };
            Response::Accept(Accept { connection_id: if codes.contains(&0) { conn } else { 0 }, content_keys: content_keys.into() })
        };
        let kind = c.kind.as_str();
        match (text(o, "how"), kind) {
            ("ok", "ping") => reply(a, pong(ext)),
            ("ok", "nodes") => reply(a, Response::Nodes(Nodes { total: 1, enrs })),
            ("ok", "content") => match text(o, "form") {
                "content" => reply(a, Response::Content(Content::Content(v))),
                "conn" => reply(a, Response::Content(Content::ConnectionId(conn))),
                _ => reply(a, Response::Content(Content::Enrs(enrs))),
            },
            ("ok", _) => reply(a, accept()),
            ("cross", "ping") => reply(a, Response::Nodes(Nodes { total: 1, enrs })),
            ("cross", "nodes") => reply(a, Response::Content(Content::Enrs(enrs))),
            ("cross", "content") => reply(a, Response::Nodes(Nodes { total: 1, enrs })),
            ("cross", _) => reply(a, pong(1)),
            ("badcodes", "offer" | "trace" | "one") => {
                let content_keys = if old { vec![0] } else { vec![0; 65] };
                reply(a, Response::Accept(Accept { connection_id: conn, content_keys: content_keys.into() }))
            }
            ("garbled" | "badcodes", _) => {
                let _ = a.send(Ok(vec![0xee, 1]));
            }
            _ => {
                let _ = a.send(Err(RequestError::Timeout));
            }
        }
    }

    fn flow(&mut self, id: i64, s: Open<UtpPeer>, o: &Value, e: &mut Value) -> Arc<Mutex<Option<Vec<u8>>>> {
        let c = &self.calls[&id];
        let wrote: Arc<Mutex<Option<Vec<u8>>>> = Default::default();
        let mut how = text(o, "how").to_string();
        if c.kind == "content" {
            let framing = !self.old(c.p);
            if !framing && (how == "short" || how == "unclosed") {
                how = "broken".into();
            }
            e["v"]["k"] = json!((c.k + e["v"]["k"].as_i64().unwrap()) % 16);
            let v: RawContentValue = from_shown(&e["v"]);
            let _ = s.answer.send(match how.as_str() {
                "ok" => Ok(read_plan(Ok(if framing { framed(&[v]) } else { v.to_vec() }))),
                // two items where there should be one, and something that is no item
                "short" => Ok(read_plan(Ok(framed(&[v.clone(), v])))),
                "unclosed" => Ok(read_plan(Ok(vec![5, 1, 2]))),
                "broken" => Ok(read_plan(Err(broken()))),
                _ => Err(broken()),
            });
        } else {
            let (keep, h) = (wrote.clone(), how.clone());
            let (tx, close) = oneshot::channel();
            let _ = tx.send(if how == "unclosed" { Err(broken()) } else { Ok(()) });
            let _ = s.answer.send(if how == "unopened" {
                Err(broken())
            } else {
                Ok(Plan {
                    write: Some(Box::new(move |b| {
                        *keep.lock() = Some(b.to_vec());
                        match h.as_str() {
                            "broken" => Err(broken()),
                            "short" => Ok(b.len() - 1),
                            _ => Ok(b.len()),
                        }
                    })),
                    close: Some(close),
                    ..Default::default()
                })
            });
        }
        e["how"] = json!(how);
        wrote
    }

    async fn op(&mut self, o: &Value) {
        let mut e = o.clone();
        e["e"] = o["op"].clone();
        e.as_object_mut().unwrap().remove("op");
        let at = |n: usize| (int(o, "i") as usize) % n.max(1);
        match text(o, "op") {
            "call" => {
                self.next += 1;
                let id = self.next;
                let h = self.start(o);
                self.calls.insert(id, Call { kind: text(o, "kind").into(), p: int(o, "p"), k: nums(&o["ks"]).first().copied().unwrap_or(0), n: nums(&o["ks"]).len(), request: None, stream: None, result: Some(h) });
                e["call"] = json!(id);
                e["x"] = self.effects(id).await;
            }
            "reply" => {
                let open: Vec<i64> = self.calls.iter().filter(|(_, c)| c.request.is_some()).map(|(i, _)| *i).collect();
                let Some(id) = open.get(at(open.len())).copied() else { return };
                let a = self.calls.get_mut(&id).unwrap().request.take().unwrap();
                e["call"] = json!(id);
                e["ext"] = self.exts(id);
                self.answer(id, a, o, &mut e);
                e["x"] = self.effects(0).await;
            }
            "stream" => {
                let open: Vec<i64> = self.calls.iter().filter(|(_, c)| c.stream.is_some()).map(|(i, _)| *i).collect();
                let Some(id) = open.get(at(open.len())).copied() else { return };
                let s = self.calls.get_mut(&id).unwrap().stream.take().unwrap();
                e["call"] = json!(id);
                let wrote = self.flow(id, s, o, &mut e);
                e["x"] = self.effects(0).await;
                let w = wrote.lock().take();
                e["sent"] = json!(w.is_some());
                e["wrote"] = match w {
                    None => json!([]),
                    Some(b) => json!(unframed(&b).unwrap_or(vec![vec![]]).iter().map(|v| shown(v)).collect::<Vec<_>>()),
                };
            }
            x => panic!("driver: unknown operation {x}"),
        }
        self.ev.push(e);
        if let Some(m) = take_panic() {
            self.ev.push(panic_event(text(o, "op"), &m));
        }
    }
    /// The extension a call asked for.
    fn exts(&self, id: i64) -> Value {
        self.ev.iter().find(|e| e["e"] == "call" && e["call"] == json!(id)).map_or(json!(0), |e| e["ext"].clone())
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let _ = take_panic();
    let ops = p["ops"].as_array().expect("driver: ops");
    let c = ops[0]["c"].clone();
    let ev = crate::world::run(async {
        let store = Store { items: vec![], want: Default::default(), cap: 100, radius: radius(int(&c, "rad") as u8) };
        let cfg = OverlayConfig { disable_poke: true, utp_transfer_limit: 1000, ..Default::default() };
        let both = || vec![PingExtensionType::Capabilities, PingExtensionType::BasicRadius];
        let ext = Extensions { supported: both(), base: vec![PingExtensionType::BasicRadius], real: None };
        let mut r = Run { w: World::new(cfg, store, ext).await, vers: BTreeMap::new(), calls: BTreeMap::new(), kept: vec![], next: 0, ev: vec![] };
        for p in nums(&c["old"]) {
            r.vers.insert(p, vec![0]);
        }
        for p in nums(&c["odd"]) {
            r.vers.insert(p, vec![9]);
        }
        for p in nums(&c["tab"]) {
            let e = r.record(p);
            let _ = r.w.overlay.add_enr(e);
        }
        for o in &ops[1..] {
            r.op(o).await;
        }
        r.ev
    });
    json!({"id": id, "cfg": c, "ev": ev})
}
