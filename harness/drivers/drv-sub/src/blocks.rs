//! The validator of the history network: bodies, receipts and headers.
use crate::block_on;
use alloy::{
    consensus::{proofs, BlockBody as Body, Header, ReceiptEnvelope, TxEnvelope},
    eips::{
        eip4895::{Withdrawal, Withdrawals},
        Decodable2718,
    },
    primitives::{keccak256, Address, B256},
};
use common::*;
use ethportal_api::{
    consensus::historical_summaries::HistoricalSummaries,
    types::{
        execution::{block_body::BlockBody, header_with_proof::*, receipts::Receipts},
        jsonrpc::{endpoints::LegacyHistoryEndpoint, request::LegacyHistoryJsonRpcRequest},
        portal::GetContentInfo,
    },
    LegacyHistoryContentKey,
};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use ssz::{Decode, Encode};
use ssz_types::FixedVector;
use std::sync::Arc;
use tokio::sync::{mpsc, RwLock};
use trin_legacy_history::validation::LegacyHistoryValidator;
use trin_validation::{
    accumulator::PreMergeAccumulator,
    header_validator::HeaderValidator,
    historical_roots_acc::HistoricalRootsAccumulator,
    historical_summaries_provider::{HistoricalSummariesProvider, HistoricalSummariesSource},
    oracle::HeaderOracle,
    validator::{ValidationResult, Validator},
};

fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = match body.len() {
        n if n < 56 => vec![192 + n as u8],
        n if n < 256 => vec![248, n as u8],
        n => vec![249, (n >> 8) as u8, n as u8],
    };
    o.extend(body);
    o
}
/// A list of so many small items.
fn fields(n: usize, salt: u8) -> Vec<u8> {
    list(&(0..n).map(|i| if i % 3 == 2 { vec![130, salt + 128, 200 + i as u8] } else { vec![salt + i as u8] }).collect::<Vec<_>>())
}
fn transactions() -> Vec<Vec<u8>> {
    let typed = |t: u8, n, salt| [vec![t], fields(n, salt)].concat();
    vec![fields(9, 1), typed(2, 12, 2), typed(1, 11, 3), typed(3, 14, 4)]
}
fn receipts() -> Vec<Vec<u8>> {
    let typed = |t: u8, salt| [vec![t], fields(4, salt)].concat();
    vec![fields(4, 21), typed(2, 22), typed(1, 23), typed(3, 24)]
}
fn uncles() -> Vec<Header> {
    vec![Header { number: 5, gas_used: 1, ..Default::default() }, Header { number: 4, gas_used: 2, extra_data: vec![1, 2, 3].into(), ..Default::default() }]
}
fn withdrawals() -> Vec<Withdrawal> {
    (1u64..4).map(|i| Withdrawal { index: i * 300, validator_index: i, address: Address::repeat_byte(i as u8), amount: i * 1000 }).collect()
}

fn picked<T: Clone>(all: &[T], l: &Value) -> Vec<T> {
    l.as_array().expect("driver: list").iter().map(|i| all[i.as_u64().expect("driver: number") as usize - 1].clone()).collect()
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("driver: bytes").iter().map(|x| x.as_u64().expect("driver: byte") as u8).collect()
}
fn body(b: &Value) -> BlockBody {
    BlockBody(Body {
        transactions: picked(&transactions(), &b["txs"]).iter().map(|t| TxEnvelope::decode_2718(&mut &t[..]).expect("driver: transaction")).collect(),
        ommers: picked(&uncles(), &b["unc"]),
        withdrawals: b["wd"].get(0).map(|l| Withdrawals(picked(&withdrawals(), l))),
    })
}
fn all_receipts(b: &Value) -> Receipts {
    Receipts(picked(&receipts(), &b["rc"]).iter().map(|r| ReceiptEnvelope::decode_2718(&mut &r[..]).expect("driver: receipt")).collect())
}
/// The header of a block, which commits to what is in it.
fn head(b: &Value) -> Header {
    let (x, r) = (body(b), all_receipts(b));
    let after = x.0.withdrawals.is_some();
    Header {
        number: if after { 17_100_000 } else { 1_000_000 },
        timestamp: if after { 1_682_000_000 } else { 1_450_000_000 },
        base_fee_per_gas: after.then_some(7),
        ommers_hash: proofs::calculate_ommers_root(&x.0.ommers),
        transactions_root: proofs::calculate_transaction_root(&x.0.transactions),
        withdrawals_root: x.0.withdrawals.as_ref().map(|w| proofs::calculate_withdrawals_root(&w.0)),
        receipts_root: proofs::calculate_receipt_root(&r.0),
        ..Default::default()
    }
}

fn branch(salt: u64, n: u64) -> Vec<B256> {
    (0..n).map(|i| keccak256([salt.to_be_bytes(), i.to_be_bytes()].concat())).collect()
}
fn fixed<N: ssz_types::typenum::Unsigned>(n: u64) -> FixedVector<B256, N> {
    FixedVector::new(branch(9, n)).expect("driver: branch")
}
/// Some proof of the kind that belongs to the time of the header.
fn with_proof(header: Header) -> HeaderWithProof {
    let proof = if header.withdrawals_root.is_some() {
        BlockHeaderProof::HistoricalSummariesCapella(BlockProofHistoricalSummariesCapella {
            beacon_block_proof: fixed(13),
            beacon_block_root: B256::ZERO,
            execution_block_proof: fixed(11),
            slot: 6_300_000,
        })
    } else {
        BlockHeaderProof::HistoricalHashes(fixed(15))
    };
    HeaderWithProof { header, proof }
}

/// Headers with the branches of their proofs; not all of them are proven.
fn heads() -> Vec<(Header, u64, bool)> {
    let h = |n: u64, gas| Header { number: n, timestamp: 1_440_000_000 + n, gas_used: gas, ..Default::default() };
    vec![(h(1000, 1), 1, true), (h(1000, 2), 1, false), (h(20_000, 3), 3, true), (h(20_000, 4), 4, false), (h(30_000, 5), 5, true)]
}
fn proven(i: usize) -> HeaderWithProof {
    let (header, salt, _) = heads()[i].clone();
    HeaderWithProof { header, proof: BlockHeaderProof::HistoricalHashes(FixedVector::new(branch(salt, 15)).expect("driver: branch")) }
}
fn accumulator() -> PreMergeAccumulator {
    let mut a = PreMergeAccumulator::default();
    for (h, salt, yes) in heads() {
        if !yes {
            continue;
        }
        let at = h.number % 8192 * 2;
        let mut root = h.hash_slow();
        for (i, b) in branch(salt, 15).iter().enumerate() {
            let (l, r) = if at >> i & 1 == 1 { (*b, root) } else { (root, *b) };
            root = B256::from_slice(&Sha256::new().chain_update(l).chain_update(r).finalize());
        }
        a.historical_epochs[(h.number / 8192) as usize] = root;
    }
    a
}

/// Asks the validator, which asks the network for the header.
fn judged(key: &LegacyHistoryContentKey, value: &[u8], known: Option<HeaderWithProof>) -> bool {
    block_on(async {
        let (tx, mut rx) = mpsc::unbounded_channel::<LegacyHistoryJsonRpcRequest>();
        tokio::spawn(async move {
            while let Some(r) = rx.recv().await {
                let answer = match (&r.endpoint, &known) {
                    (LegacyHistoryEndpoint::GetContent(LegacyHistoryContentKey::BlockHeaderByHash(k)), Some(h)) if h.header.hash_slow() == B256::from(k.block_hash) => {
                        Ok(json!(GetContentInfo { content: h.as_ssz_bytes().into(), utp_transfer: false }))
                    }
                    _ => Err("there is none".to_string()),
                };
                let _ = r.resp.send(answer);
            }
        });
        let oracle = HeaderOracle { legacy_history_jsonrpc_tx: Some(tx), ..Default::default() };
        let v = LegacyHistoryValidator {
            header_oracle: Arc::new(RwLock::new(oracle)),
            header_validator: HeaderValidator {
                pre_merge_acc: accumulator(),
                historical_roots_acc: HistoricalRootsAccumulator::default(),
                historical_summaries_provider: HistoricalSummariesProvider::new(HistoricalSummariesSource::HistoricalSummaries(
                    HistoricalSummaries::new(vec![]).expect("driver: summaries"),
                )),
            },
        };
        !matches!(v.validate_content(key, value).await, ValidationResult::Invalid(_))
    })
}

fn packed(items: &[Vec<u8>]) -> Vec<u8> {
    let mut at = 4 * items.len() as u32;
    let mut o = vec![];
    for i in items {
        o.extend(at.to_le_bytes());
        at += i.len() as u32;
    }
    o.extend(items.concat());
    o
}
/// Items with the stray bytes that follow them.
fn strewn(all: &[Vec<u8>], l: &Value) -> Vec<Vec<u8>> {
    l.as_array()
        .expect("driver: list")
        .iter()
        .map(|i| [all[int(i, "k") as usize - 1].clone(), bytes(&i["junk"])].concat())
        .collect()
}
fn edited(mut b: Vec<u8>, d: &Value) -> Vec<u8> {
    b.truncate(b.len().saturating_sub(int(d, "cut") as usize));
    b.extend(bytes(&d["add"]));
    let at = int(d, "at") as usize;
    if at > 0 && at <= b.len() {
        b[at - 1] = int(d, "v") as u8;
    }
    b
}

fn call(o: &Value) -> Value {
    let b = &o["b"];
    let known = || (o["known"] == true).then(|| with_proof(head(b)));
    match text(o, "op") {
        "own" => {
            let (x, r) = (body(b), all_receipts(b));
            let (raw, rraw) = (x.as_ssz_bytes(), r.as_ssz_bytes());
            json!({"e": "own", "b": b, "back": BlockBody::from_ssz_bytes(&raw).is_ok_and(|y| y == x), "raw": raw,
                   "rback": Receipts::from_ssz_bytes(&rraw).is_ok_and(|y| y == r), "rraw": rraw})
        }
        "body" => {
            let s = &o["s"];
            let unc = [list(&picked(&uncles(), &s["unc"]).iter().map(alloy::rlp::encode).collect::<Vec<_>>()), bytes(&s["after"])].concat();
            let mut parts = vec![packed(&strewn(&transactions(), &s["txs"])), unc];
            if let Some(l) = s["wd"].get(0) {
                parts.push(packed(&strewn(&withdrawals().iter().map(alloy::rlp::encode).collect::<Vec<_>>(), l)));
            }
            let raw = edited(packed(&parts), &o["edit"]);
            let ok = judged(&LegacyHistoryContentKey::new_block_body(head(b).hash_slow()), &raw, known());
            json!({"e": "body", "b": b, "known": o["known"], "raw": raw, "ok": ok})
        }
        "receipts" => {
            let raw = edited(packed(&strewn(&receipts(), &o["rc"])), &o["edit"]);
            let ok = judged(&LegacyHistoryContentKey::new_block_receipts(head(b).hash_slow()), &raw, known());
            json!({"e": "receipts", "b": b, "known": o["known"], "raw": raw, "ok": ok})
        }
        "head" => {
            let (i, k) = (int(o, "i") as usize - 1, int(o, "k") as usize - 1);
            let mut raw = proven(i).as_ssz_bytes();
            let pad = bytes(&o["pad"]);
            if !pad.is_empty() {
                let end = u32::from_le_bytes(raw[4..8].try_into().expect("driver: place"));
                raw.splice(4..8, (end + pad.len() as u32).to_le_bytes());
                raw.splice(end as usize..end as usize, pad);
            }
            let raw = edited(raw, &o["edit"]);
            let key = match text(o, "by") {
                "hash" => LegacyHistoryContentKey::new_block_header_by_hash(heads()[k].0.hash_slow()),
                _ => LegacyHistoryContentKey::new_block_header_by_number(heads()[k].0.number + (int(o, "hi") != 0) as u64 * (1 << (16 * int(o, "hi")))),
            };
            json!({"e": "head", "by": o["by"], "k": o["k"], "hi": o["hi"], "ok": judged(&key, &raw, None), "raw": raw})
        }
        "other" => {
            let h = proven(int(o, "i") as usize - 1);
            let key = match text(o, "kind") {
                "recent" => LegacyHistoryContentKey::new_ephemeral_headers_find_content(h.header.hash_slow(), 0),
                _ => LegacyHistoryContentKey::new_ephemeral_header_offer(h.header.hash_slow()),
            };
            let ok = judged(&key, &h.as_ssz_bytes(), Some(h.clone())) || judged(&key, &alloy::rlp::encode(&h.header), Some(h));
            json!({"e": "other", "kind": o["kind"], "ok": ok})
        }
        p => panic!("driver: unknown step {p}"),
    }
}

pub fn run(i: usize, p: &Value) -> Value {
    let ev: Vec<Value> = p["ops"]
        .as_array()
        .expect("driver: ops")
        .iter()
        .map(|o| {
            guarded(|| call(o)).unwrap_or_else(|m| {
                let mut e = panic_event("call", &m);
                e["input"] = o.to_string().into();
                e
            })
        })
        .collect();
    let heads: Vec<Value> = heads().iter().enumerate().map(|(i, h)| json!({"raw": proven(i).as_ssz_bytes(), "num": h.0.number, "proven": h.2})).collect();
    json!({"id": i, "ev": ev, "cfg": {
        "txs": transactions(), "rcs": receipts(), "unc": uncles().iter().map(alloy::rlp::encode).collect::<Vec<_>>(),
        "wds": withdrawals().iter().map(alloy::rlp::encode).collect::<Vec<_>>(), "heads": heads}})
}
