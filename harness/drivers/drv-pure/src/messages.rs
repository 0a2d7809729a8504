//! Protocol messages and ping payloads, encoded and decoded.
use crate::keys::bytes;
use alloy::primitives::{Bytes, U256};
use common::*;
use discv5::enr::CombinedKey;
use ethportal_api::types::{
    distance::Distance,
    enr::{Enr, SszEnr},
    ping_extensions::{
        decode::PingExtension,
        extension_types::PingExtensionType,
        extensions::{
            type_0::{ClientInfo, ClientInfoRadiusCapabilities},
            type_65535::{ErrorCodes, PingError},
        },
    },
    portal_wire::{
        Accept, Content, CustomPayload, FindContent, FindNodes, Message, Nodes, Offer, Ping, Pong, PopulatedOffer, PopulatedOfferWithResult, Request,
        Response,
    },
};
use serde_json::{json, Value};
use std::net::Ipv4Addr;

fn records() -> Vec<Enr> {
    (0u8..3)
        .map(|i| {
            let mut b = Enr::builder();
            b.ip4(Ipv4Addr::new(10, 0, 0, i + 1)).udp4(9000 + i as u16);
            if i == 1 {
                b.add_value("pad", &vec![7u8; 80].as_slice());
            }
            b.build(&CombinedKey::secp256k1_from_bytes(&mut [i + 1; 32]).expect("driver: key")).expect("driver: record")
        })
        .collect()
}

fn two(v: &Value) -> u16 {
    u16::from_le_bytes(bytes(v).try_into().expect("driver: number"))
}
fn eight(v: &Value) -> u64 {
    u64::from_le_bytes(bytes(v).try_into().expect("driver: number"))
}
fn each<T>(v: &Value, f: impl Fn(&Value) -> T) -> Vec<T> {
    v.as_array().expect("driver: list").iter().map(f).collect()
}
fn chosen(recs: &[Enr], v: &Value) -> Vec<SszEnr> {
    each(v, |i| SszEnr::new(recs[i[0].as_i64().expect("driver: record") as usize - 1].clone()))
}
/// The numbers of the records; 0 for one that is not known.
fn numbers(recs: &[Enr], l: &[SszEnr]) -> Value {
    l.iter().map(|e| json!([recs.iter().position(|r| *r == e.0).map_or(0, |i| i + 1)])).collect()
}

fn make(recs: &[Enr], m: i64, f: &Value) -> Message {
    match m {
        0 => Message::Ping(Ping { enr_seq: eight(&f[0][0]), payload_type: PingExtensionType::from(two(&f[1][0])), payload: CustomPayload::from(bytes(&f[2][0])) }),
        1 => Message::Pong(Pong { enr_seq: eight(&f[0][0]), payload_type: PingExtensionType::from(two(&f[1][0])), payload: CustomPayload::from(bytes(&f[2][0])) }),
        2 => Message::FindNodes(FindNodes { distances: each(&f[0], two) }),
        3 => Message::Nodes(Nodes { total: bytes(&f[0][0])[0], enrs: chosen(recs, &f[1]) }),
        4 => Message::FindContent(FindContent { content_key: Bytes::from(bytes(&f[0][0])) }),
        5 => Message::Content(match bytes(&f[0][0])[0] {
            0 => Content::ConnectionId(two(&f[1][0])),
            1 => Content::Content(Bytes::from(bytes(&f[1][0]))),
            _ => Content::Enrs(chosen(recs, &f[1])),
        }),
        6 => Message::Offer(Offer { content_keys: each(&f[0], |k| Bytes::from(bytes(k))) }),
        7 => Message::Accept(Accept { connection_id: two(&f[0][0]), content_keys: Bytes::from(bytes(&f[1][0])) }),
        _ => panic!("driver: message"),
    }
}
fn show(recs: &[Enr], x: &Message) -> Value {
    let kind = |t: &PingExtensionType| u16::from(*t).to_le_bytes();
    let (m, f) = match x {
        Message::Ping(p) => (0, json!([[p.enr_seq.to_le_bytes()], [kind(&p.payload_type)], [p.payload.payload.to_vec()]])),
        Message::Pong(p) => (1, json!([[p.enr_seq.to_le_bytes()], [kind(&p.payload_type)], [p.payload.payload.to_vec()]])),
        Message::FindNodes(q) => (2, json!([q.distances.iter().map(|d| d.to_le_bytes()).collect::<Vec<_>>()])),
        Message::Nodes(n) => (3, json!([[[n.total]], numbers(recs, &n.enrs)])),
        Message::FindContent(q) => (4, json!([[q.content_key.to_vec()]])),
        Message::Content(Content::ConnectionId(i)) => (5, json!([[[0]], [i.to_le_bytes()]])),
        Message::Content(Content::Content(c)) => (5, json!([[[1]], [c.to_vec()]])),
        Message::Content(Content::Enrs(l)) => (5, json!([[[2]], numbers(recs, l)])),
        Message::Offer(o) => (6, json!([o.content_keys.iter().map(|k| k.to_vec()).collect::<Vec<_>>()])),
        Message::Accept(a) => (7, json!([[a.connection_id.to_le_bytes()], [a.content_keys.to_vec()]])),
    };
    json!({"m": m, "f": f})
}

fn edited(mut b: Vec<u8>, d: &Value) -> Vec<u8> {
    b.truncate(b.len().saturating_sub(int(d, "cut") as usize));
    b.extend(bytes(&d["add"]));
    let at = int(d, "at") as usize;
    if at > 0 && at <= b.len() {
        b[at - 1] = int(d, "v") as u8;
    }
    b
}

fn message(recs: &[Enr], o: &Value) -> Value {
    let x = make(recs, int(o, "m"), &o["f"]);
    let raw: Vec<u8> = x.clone().into();
    if o["op"] == "msg" {
        let back = Message::try_from(raw.clone()).is_ok_and(|b| b == x && show(recs, &b)["f"] == o["f"]);
        return json!({"e": "msg", "m": o["m"], "f": o["f"], "raw": raw, "back": back});
    }
    let raw = edited(raw, &o["edit"]);
    let got = Message::try_from(raw.clone()).ok();
    let again: Vec<u8> = got.clone().map_or(vec![], |m| m.into());
    json!({"e": "rawmsg", "raw": raw, "res": got.iter().map(|m| show(recs, m)).collect::<Vec<_>>(), "again": again,
           "request": got.clone().is_some_and(|m| Request::try_from(m).is_ok()),
           "answer": got.is_some_and(|m| Response::try_from(m).is_ok())})
}

/// The payload's fields one after the other, those that vary in size at the end.
fn payload(o: &Value) -> Vec<u8> {
    let f = &o["f"];
    let all = |v: &Value| each(v, bytes).concat();
    match two(&o["t"]) {
        0 => {
            let info = [text(o, "info").as_bytes(), &all(&f[0])].concat();
            let end = 40 + info.len() as u32;
            [&40u32.to_le_bytes()[..], &all(&f[1]), &end.to_le_bytes(), &info, &all(&f[2])].concat()
        }
        65535 => [&all(&f[0])[..], &6u32.to_le_bytes(), &all(&f[1])].concat(),
        _ => each(f, all).concat(),
    }
}
fn pay(o: &Value) -> Value {
    let raw = edited(payload(o), &o["edit"]);
    let got = PingExtension::decode_ssz(PingExtensionType::from(two(&o["t"])), CustomPayload::from(raw.clone())).ok();
    let res: Vec<Value> = got
        .iter()
        .map(|p| match p {
            PingExtension::Capabilities(c) => json!([
                [c.client_info.as_ref().map_or(String::new(), |i| i.to_string()).as_bytes()],
                [c.data_radius.to_le_bytes::<32>()],
                c.capabilities.iter().map(|t| u16::from(*t).to_le_bytes()).collect::<Vec<_>>()
            ]),
            PingExtension::BasicRadius(r) => json!([[r.data_radius.to_le_bytes::<32>()]]),
            PingExtension::HistoryRadius(r) => json!([[r.data_radius.to_le_bytes::<32>()], [r.ephemeral_header_count.to_le_bytes()]]),
            PingExtension::Error(e) => json!([[e.error_code.to_le_bytes()], [e.message.to_vec()]]),
        })
        .collect();
    let json = got.as_ref().is_some_and(|p| {
        serde_json::to_value(p).is_ok_and(|v| PingExtension::decode_json(p.ping_extension_type(), v).is_ok_and(|q| q == *p))
    });
    let again = got.map_or(vec![], |p| CustomPayload::from(p).payload.to_vec());
    json!({"e": "pay", "t": o["t"], "raw": raw, "res": res, "again": again, "json": json})
}

fn send(o: &Value) -> Value {
    let content_items = each(&o["items"], |i| (Bytes::from(bytes(&i[0])), Bytes::from(bytes(&i[1]))));
    let raw: Vec<u8> = Message::from(Request::PopulatedOffer(PopulatedOffer { content_items: content_items.clone() })).into();
    let (result_tx, _) = tokio::sync::mpsc::unbounded_channel();
    let tracked: Vec<u8> = Message::from(Request::PopulatedOfferWithResult(PopulatedOfferWithResult { content_items, result_tx })).into();
    json!({"e": "send", "items": o["items"], "raw": raw, "tracked": tracked})
}

fn info(o: &Value) -> Value {
    let f = each(&o["f"], |v| v.as_str().expect("driver: text").to_string());
    let info = ClientInfo {
        client_name: f[0].clone(),
        client_version: f[1].clone(),
        short_commit: f[2].clone(),
        operating_system: f[3].clone(),
        cpu_architecture: f[4].clone(),
        programming_language_version: f[5].clone(),
    };
    let caps = each(&o["caps"], |t| PingExtensionType::from(two(t)));
    let radius = Distance::from(U256::from_le_slice(&bytes(&o["radius"])));
    let made = PingExtension::Capabilities(ClientInfoRadiusCapabilities::new_with_client_info(Some(info), radius, caps));
    let raw = CustomPayload::from(made.clone());
    let back = PingExtension::decode_ssz(PingExtensionType::Capabilities, raw.clone()).is_ok_and(|p| p == made);
    json!({"e": "info", "f": f.iter().map(|t| t.as_bytes()).collect::<Vec<_>>(), "radius": o["radius"], "caps": o["caps"],
           "raw": raw.payload.to_vec(), "back": back})
}

fn error(o: &Value) -> Value {
    let code = || match int(o, "code") {
        0 => ErrorCodes::ExtensionNotSupported,
        1 => ErrorCodes::RequestedDataNotFound,
        2 => ErrorCodes::FailedToDecodePayload,
        _ => ErrorCodes::SystemError,
    };
    let n = int(o, "n") as usize;
    let made = if n == 0 { Some(PingError::new(code())) } else { PingError::new_with_message(code(), vec![66; n]).ok() };
    json!({"e": "error", "code": o["code"], "n": n, "fits": made.is_some(), "raw": made.map_or(vec![], |m| CustomPayload::from(m).payload.to_vec())})
}

pub fn run(i: usize, p: &Value) -> Value {
    let recs = records();
    let ev: Vec<Value> = each(&p["ops"], |o| {
        guarded(|| match text(o, "op") {
            "pay" => pay(o),
            "send" => send(o),
            "info" => info(o),
            "error" => error(o),
            _ => message(&recs, o),
        }).unwrap_or_else(|m| {
            let mut e = panic_event("call", &m);
            e["input"] = o.to_string().into();
            e
        })
    });
    json!({"id": i, "cfg": {"recs": recs.iter().map(|r| alloy_rlp::encode(r)).collect::<Vec<_>>()}, "ev": ev})
}
