//! Who is offered what of a batch.
use crate::world::*;
use common::*;
use discv5::{
    enr::NodeId,
    kbucket::{KBucketsTable, NodeStatus},
    ConnectionDirection, ConnectionState, Key as TableKey,
};
use ethportal_api::{
    types::{distance::XorMetric, portal_wire::Request},
    OverlayContentKey,
};
use portalnet::{
    overlay::{command::OverlayCommand, request::RequestDirection},
    put_content::propagate_put_content_cross_thread,
    types::{kbucket::SharedKBucketsTable, node::Node},
};
use serde_json::{json, Value};
use std::time::Duration;
use tokio::sync::mpsc;

fn batch(p: &Value) -> Value {
    let local: TableKey<NodeId> = node_id(0).into();
    let table = SharedKBucketsTable::new(KBucketsTable::new(local, Duration::from_secs(60), 16, None, None));
    for q in p["table"].as_array().unwrap() {
        let conn = q["conn"].as_bool().unwrap();
        let status = NodeStatus {
            state: if conn { ConnectionState::Connected } else { ConnectionState::Disconnected },
            direction: ConnectionDirection::Outgoing,
        };
        let enr = record(int(q, "p") as u8, 1, &[0, 1], 0);
        let _ = table.insert_or_update(Node::new(enr, crate::table::distance(int(q, "r"))), status);
    }
    let items = p["items"]
        .as_array()
        .unwrap()
        .iter()
        .map(|i| (Key::new(int(i, "k") as u8, i["aff"].as_bool().unwrap()), vec![int(i, "k") as u8].into()))
        .collect();
    let (tx, mut rx) = mpsc::unbounded_channel();
    let count = propagate_put_content_cross_thread::<Key, XorMetric>(items, &table, tx, None);
    let mut got = vec![];
    while let Ok(c) = rx.try_recv() {
        let OverlayCommand::Request(r) = c else { continue };
        let (Request::PopulatedOffer(o), RequestDirection::Outgoing { destination }) = (r.request, r.direction) else { continue };
        let ks: Vec<i64> = o
            .content_items
            .iter()
            .map(|(k, v)| {
                let k = Key::try_from_bytes(k).map(|k| k.num()).unwrap_or(0);
                // a value goes with its key
                if v.len() == 1 && v[0] as i64 == k { k } else { 0 }
            })
            .collect();
        got.push(json!({"p": num(&destination.node_id()), "ks": ks}));
    }
    got.sort_by_key(|v| v["p"].as_i64());
    json!({"e": "batch", "table": p["table"], "items": p["items"], "got": got, "count": count})
}

pub fn run(id: usize, p: &Value) -> Value {
    let ev = p["ops"].as_array().unwrap().iter().map(|o| guarded(|| batch(o)).unwrap_or_else(|m| panic_event("batch", &m))).collect::<Vec<_>>();
    json!({"id": id, "cfg": {}, "ev": ev})
}
