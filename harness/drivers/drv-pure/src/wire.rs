use crate::ints;
use alloy::primitives::Bytes;
use common::*;
use ethportal_api::types::{
    accept_code::{AcceptCode, AcceptCodeList},
    portal_wire::Accept,
    protocol_versions::ProtocolVersion,
};
use portalnet::utils::portal_wire::{decode_content_payload, decode_single_content_payload, encode_content_payload};
use serde_json::{json, Value};

fn expand(runs: &Value) -> Vec<u8> {
    let mut out = vec![];
    for r in runs.as_array().expect("driver: runs") {
        out.extend(vec![r[0].as_u64().unwrap() as u8; r[1].as_u64().unwrap() as usize]);
    }
    out
}
fn runs(b: &[u8]) -> Value {
    let mut out: Vec<(u8, usize)> = vec![];
    for x in b {
        match out.last_mut() {
            Some((y, n)) if y == x => *n += 1,
            _ => out.push((*x, 1)),
        }
    }
    json!(out)
}
fn many(b: &[u8]) -> Value {
    match decode_content_payload(Bytes::from(b.to_vec())) {
        Ok(v) => json!({"ok": true, "items": v.iter().map(|i| runs(i)).collect::<Vec<_>>()}),
        Err(_) => json!({"ok": false, "items": []}),
    }
}
fn single(b: &[u8]) -> Value {
    match decode_single_content_payload(Bytes::from(b.to_vec())) {
        Ok(v) => json!({"ok": true, "items": [runs(&v)]}),
        Err(_) => json!({"ok": false, "items": []}),
    }
}
fn codes(ver: ProtocolVersion, b: &[u8]) -> Value {
    match AcceptCodeList::decode(ver, Bytes::from(b.to_vec())) {
        Ok(l) => json!({"ok": true, "codes": l.iter().map(|c| u8::from(*c)).collect::<Vec<_>>()}),
        Err(_) => json!({"ok": false, "codes": []}),
    }
}

pub fn call(o: &Value) -> Value {
    match text(o, "op") {
        "items" => {
            let items: Vec<Bytes> = o["items"].as_array().unwrap().iter().map(|r| expand(r).into()).collect();
            let enc = encode_content_payload(&items);
            let (ok, bytes) = match enc {
                Ok(b) => (true, b.to_vec()),
                Err(_) => (false, vec![]),
            };
            let mut dec = vec![];
            let n = bytes.len();
            let mut cuts = vec![0, 1, 2, 3, 4, 127, 128, 129, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1), n];
            cuts.retain(|c| *c <= n);
            cuts.sort();
            cuts.dedup();
            for cut in cuts {
                for add in [vec![], vec![0u8], vec![1], vec![128]] {
                    if cut > 4 && !add.is_empty() {
                        continue;
                    }
                    let mut b = bytes[..n - cut].to_vec();
                    b.extend(&add);
                    dec.push(json!({"cut": cut, "add": add, "one": false, "res": many(&b)}));
                    if items.len() <= 2 {
                        dec.push(json!({"cut": cut, "add": add, "one": true, "res": single(&b)}));
                    }
                }
            }
            json!({"e": "items", "items": o["items"], "ok": ok, "enc": runs(&bytes), "dec": dec})
        }
        "raw" => {
            let b: Vec<u8> = ints(&o["bytes"]).iter().map(|x| *x as u8).collect();
            json!({"e": "raw", "bytes": b, "many": many(&b), "single": single(&b)})
        }
        "codes" => {
            let ver = ProtocolVersion::from(int(o, "ver") as u8);
            let c: Vec<u8> = ints(&o["codes"]).iter().map(|x| *x as u8).collect();
            let mut list = AcceptCodeList::new(c.len()).expect("driver: list");
            for (i, x) in c.iter().enumerate() {
                list.set(i, AcceptCode::from(*x));
            }
            let (ok, bytes) = match list.encode(ver) {
                Ok(b) => (true, b.to_vec()),
                Err(_) => (false, vec![]),
            };
            let sent = if ok { Accept::new(ver, 7, list).content_keys.to_vec() } else { bytes.clone() };
            json!({"e": "codes", "ver": o["ver"], "codes": c, "ok": ok && sent == bytes, "bytes": bytes, "back": codes(ver, &bytes)})
        }
        "rawcodes" => {
            let ver = ProtocolVersion::from(int(o, "ver") as u8);
            let b: Vec<u8> = ints(&o["bytes"]).iter().map(|x| *x as u8).collect();
            json!({"e": "rawcodes", "ver": o["ver"], "bytes": b, "res": codes(ver, &b)})
        }
        m => panic!("driver: op {m}"),
    }
}
