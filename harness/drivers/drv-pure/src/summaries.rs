//! Summaries asked from the provider, with the answers of the beacon network under control.
use alloy::primitives::{hex, B256};
use common::*;
use ethportal_api::{
    consensus::historical_summaries::{HistoricalSummaries, HistoricalSummary, HistoricalSummariesWithProof},
    types::{
        consensus::fork::ForkName,
        content_value::beacon::ForkVersionedHistoricalSummariesWithProof,
        jsonrpc::{endpoints::BeaconEndpoint, request::BeaconJsonRpcRequest},
    },
    BeaconContentKey,
    BeaconContentValue, ContentValue,
};
use serde_json::{json, Value};
use ssz_types::FixedVector;
use std::sync::Arc;
use tokio::sync::{mpsc, RwLock};
use trin_validation::{
    historical_summaries_provider::{HistoricalSummariesProvider, HistoricalSummariesSource},
    oracle::HeaderOracle,
};

const PERIOD: u64 = 8192;

fn summary(tag: i64, i: i64) -> HistoricalSummary {
    let mut b = B256::ZERO;
    b.0[0] = tag as u8;
    b.0[1..9].copy_from_slice(&i.to_be_bytes());
    HistoricalSummary { block_summary_root: b, state_summary_root: b }
}
fn list(tag: i64, len: i64) -> HistoricalSummaries {
    HistoricalSummaries::new((0..len).map(|i| summary(tag, i)).collect::<Vec<_>>()).expect("driver: list")
}
fn name(s: &HistoricalSummary) -> Value {
    let b = s.block_summary_root.0;
    let i = i64::from_be_bytes(b[1..9].try_into().expect("driver: bytes"));
    if *s == summary(b[0] as i64, i) { json!([b[0], i]) } else { json!([-2, -2]) }
}

async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let ops = p["ops"].as_array().expect("driver: ops");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("driver: runtime");
    rt.block_on(async {
        let mut ev = vec![];
        let start = &ops[0];
        let (tx, mut rx) = mpsc::unbounded_channel::<BeaconJsonRpcRequest>();
        let source = match text(start, "source") {
            "fixed" => HistoricalSummariesSource::HistoricalSummaries(list(int(start, "tag"), int(start, "len"))),
            "absent" => HistoricalSummariesSource::HeaderOracle(Arc::new(RwLock::new(HeaderOracle::default()))),
            _ => HistoricalSummariesSource::HeaderOracle(Arc::new(RwLock::new(HeaderOracle { beacon_jsonrpc_tx: Some(tx.clone()), ..Default::default() }))),
        };
        let provider = HistoricalSummariesProvider::new(source);
        let mut asks: Vec<(i64, tokio::task::JoinHandle<Result<HistoricalSummary, String>>)> = vec![];
        let mut waiting: Vec<(i64, mpsc::UnboundedSender<Result<Value, String>>)> = vec![];
        let mut fetched = 0;
        'all: for o in &ops[1..] {
            let mut e = o.clone();
            e["e"] = o["op"].clone();
            match text(o, "op") {
                "ask" => {
                    // per is the period counted from the first with summaries; pos the position in it
                    let slot = match int(o, "per") {
                        999999 => u64::MAX - int(o, "pos") as u64,
                        per => ((758 + per) * PERIOD as i64 + int(o, "pos")) as u64,
                    };
                    let pr = provider.clone();
                    asks.push((int(o, "id"), tokio::spawn(async move { pr.get_historical_summary(slot).await.map_err(|e| e.to_string()) })));
                }
                _ => {
                    let k = int(o, "k") as usize;
                    if k < waiting.len() {
                        let (f, w) = waiting.remove(k);
                        e["f"] = f.into();
                        let v = |n: i64, t: i64| {
                            BeaconContentValue::HistoricalSummariesWithProof(ForkVersionedHistoricalSummariesWithProof {
                                fork_name: ForkName::Electra,
                                historical_summaries_with_proof: HistoricalSummariesWithProof {
                                    epoch: 1,
                                    historical_summaries: list(t, n),
                                    proof: FixedVector::from_elem(B256::ZERO),
                                },
                            })
                            .encode()
                        };
                        match text(o, "how") {
                            "list" => drop(w.send(Ok(json!(hex::encode_prefixed(v(int(o, "len"), int(o, "tag"))))))),
                            "cut" => {
                                let b = v(int(o, "len"), int(o, "tag"));
                                drop(w.send(Ok(json!(hex::encode_prefixed(&b[..b.len() - 1])))))
                            }
                            "text" => drop(w.send(Ok(json!({"content": "0x"})))),
                            "error" => drop(w.send(Err("nothing".into()))),
                            _ => drop(w),
                        }
                    } else {
                        e["f"] = (-1).into();
                    }
                }
            }
            settle().await;
            let mut done = vec![];
            let mut i = 0;
            while i < asks.len() {
                if asks[i].1.is_finished() {
                    let (a, h) = asks.remove(i);
                    match h.await {
                        Ok(Ok(s)) => done.push(json!({"id": a, "ok": true, "v": name(&s)})),
                        Ok(Err(_)) => done.push(json!({"id": a, "ok": false, "v": [-1, -1]})),
                        Err(m) => {
                            ev.push(panic_event("ask", &m.to_string()));
                            break 'all;
                        }
                    }
                } else {
                    i += 1;
                }
            }
            let mut req = vec![];
            while let Ok(r) = rx.try_recv() {
                let epoch = match &r.endpoint {
                    BeaconEndpoint::LocalContent(BeaconContentKey::HistoricalSummariesWithProof(k)) => k.epoch,
                    _ => 0,
                };
                // [period from the first with summaries, epoch in it]
                let rel = if epoch > 1 << 50 { json!([999999, (u64::MAX / 32 - epoch) as i64]) } else { json!([epoch as i64 / 256 - 758, epoch % 256]) };
                req.push(json!({"f": fetched, "epoch": rel}));
                waiting.push((fetched, r.resp));
                fetched += 1;
            }
            e["done"] = done.into();
            e["req"] = req.into();
            e["open"] = waiting.len().into();
            ev.push(e);
        }
        json!({"id": id, "cfg": start, "ev": ev})
    })
}
