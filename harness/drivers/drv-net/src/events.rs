//! The dispatcher between discovery, the sub-networks and uTP.
use crate::world::node_id;
use common::*;
use discv5::TalkRequest;
use ethportal_api::types::network::Subnetwork;
use portalnet::events::{EventEnvelope, OverlayEvent, OverlayRequest, PortalnetEvents, Timestamp};
use serde_json::{json, Value};
use tokio::sync::{broadcast, mpsc};

const NETS: [&str; 3] = ["history", "state", "beacon"];

fn subnetwork(n: &str) -> Subnetwork {
    match n {
        "history" => Subnetwork::LegacyHistory,
        "state" => Subnetwork::State,
        "beacon" => Subnetwork::Beacon,
        "utp" => Subnetwork::Utp,
        "indices" => Subnetwork::CanonicalIndices,
        x => panic!("driver: network {x}"),
    }
}
/// Protocol ids on the wire.
fn protocol(n: &str) -> Vec<u8> {
    match n {
        "history" => vec![0x50, 0x0b],
        "state" => vec![0x50, 0x0a],
        "beacon" => vec![0x50, 0x0c],
        "utp" => b"utp".to_vec(),
        "newhistory" => vec![0x50, 0x00],
        "indices" => vec![0x50, 0x0d],
        "verkle" => vec![0x50, 0x0e],
        "txs" => vec![0x50, 0x0f],
        // of another network
        "foreign" => vec![0x50, 0x4a],
        "empty" => vec![],
        "short" => vec![0x50],
        "long" => vec![0x50, 0x0b, 0x00],
        "upper" => b"0x500B".to_vec(),
        x => panic!("driver: protocol {x}"),
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let _ = take_panic();
    let ops = p["ops"].as_array().unwrap();
    let c = ops[0]["c"].clone();
    let ev = crate::world::run(async {
        let (talk_tx, talk_rx) = mpsc::channel(100);
        let (utp_tx, mut utp_rx) = mpsc::unbounded_channel();
        let (mut inboxes, mut events, mut handles) = (vec![], vec![], vec![]);
        for n in NETS {
            let state = text(&c, n);
            let (tx, rx) = mpsc::unbounded_channel::<OverlayRequest>();
            let (etx, erx) = broadcast::channel(64);
            handles.push(if state == "off" { (None, None) } else { (Some(tx), Some(erx)) });
            // a network that is gone has let go of its end
            inboxes.push((state == "on").then_some(rx));
            events.push(etx);
        }
        let mut h = handles.into_iter();
        let d = PortalnetEvents::new(talk_rx, h.next().unwrap(), h.next().unwrap(), h.next().unwrap(), utp_tx).await;
        let main = tokio::spawn(d.start());
        let mut ev = vec![];
        let mut n = 0i64;
        for o in &ops[1..] {
            // everything of a burst is there before the dispatcher gets to run
            let mut sent = vec![];
            for i in o["items"].as_array().unwrap() {
                n += 1;
                let mut i = i.clone();
                i["id"] = json!(n);
                if text(&i, "what") == "talk" {
                    let (t, _) = TalkRequest::make(node_id(9), protocol(text(&i, "net")), n.to_be_bytes().to_vec());
                    let _ = talk_tx.try_send(t);
                } else {
                    let at = NETS.iter().position(|x| *x == text(&i, "net")).unwrap();
                    let to = i["to"].as_array().unwrap();
                    let to = (!i["all"].as_bool().unwrap()).then(|| to.iter().map(|t| subnetwork(t.as_str().unwrap())).collect());
                    let payload = if n % 2 == 0 { OverlayEvent::LightClientOptimisticUpdate } else { OverlayEvent::LightClientFinalityUpdate };
                    let _ = events[at].send(EventEnvelope { timestamp: Timestamp::CreateTime(n), from: subnetwork(NETS[at]), payload, destination: to });
                }
                sent.push(i);
            }
            for _ in 0..200 {
                tokio::task::yield_now().await;
            }
            let mut got = vec![];
            for (k, r) in inboxes.iter_mut().enumerate() {
                while let Some(Ok(x)) = r.as_mut().map(|r| r.try_recv()) {
                    let (what, id) = match x {
                        OverlayRequest::Talk(t) => ("talk", i64::from_be_bytes(t.body().try_into().unwrap_or_default())),
                        OverlayRequest::Event(e) => ("event", e.timestamp.to_millis().unwrap_or(-1)),
                    };
                    got.push(json!({"net": NETS[k], "what": what, "id": id}));
                }
            }
            while let Ok(t) = utp_rx.try_recv() {
                got.push(json!({"net": "utp", "what": "talk", "id": i64::from_be_bytes(t.body().try_into().unwrap_or_default())}));
            }
            ev.push(json!({"e": "burst", "items": sent, "got": got}));
            if let Some(m) = take_panic() {
                ev.push(panic_event("burst", &m));
            }
        }
        main.abort();
        ev
    });
    json!({"id": id, "cfg": c, "ev": ev})
}
