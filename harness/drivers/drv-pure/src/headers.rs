//! Headers with proofs made by folding random branches up to roots that the validator trusts.
use alloy::{consensus::Header, primitives::B256};
use common::*;
use ethportal_api::{
    consensus::historical_summaries::{HistoricalSummaries, HistoricalSummary},
    types::execution::header_with_proof::*,
};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use ssz::{Decode, Encode};
use ssz_types::FixedVector;
use std::cell::RefCell;
use trin_validation::{
    accumulator::PreMergeAccumulator,
    header_validator::HeaderValidator,
    historical_roots_acc::HistoricalRootsAccumulator,
    historical_summaries_provider::{HistoricalSummariesProvider, HistoricalSummariesSource},
};

const PERIOD: u64 = 8192;

thread_local! {
    static TRUSTED: RefCell<Option<(PreMergeAccumulator, HistoricalRootsAccumulator)>> = const { RefCell::new(None) };
}

fn element(salt: u64, i: u64) -> B256 {
    B256::from_slice(&Sha256::new().chain_update(salt.to_be_bytes()).chain_update(i.to_be_bytes()).finalize())
}
fn branch(salt: u64, len: i64) -> Vec<B256> {
    (0..len as u64).map(|i| element(salt, i)).collect()
}
fn fold(leaf: B256, branch: &[B256], at: i64) -> B256 {
    let mut h = leaf;
    for (i, b) in branch.iter().enumerate() {
        let (l, r) = if at >> i & 1 == 1 { (b, &h) } else { (&h, b) };
        h = B256::from_slice(&Sha256::new().chain_update(l).chain_update(r).finalize());
    }
    h
}
fn spoil(h: &mut B256, i: i64) {
    h.0[(i % 32) as usize] ^= 1 << (i % 8);
}

fn header(n: u64, ts: u64) -> Header {
    let mut h = Header { number: n, timestamp: ts, gas_limit: 30_000_000, gas_used: 1_000_000, state_root: element(7, n), ..Default::default() };
    if n >= 12965000 {
        h.base_fee_per_gas = Some(7);
    }
    if ts >= 1681338455 {
        h.withdrawals_root = Some(element(8, n));
    }
    if ts >= 1710338135 {
        h.blob_gas_used = Some(0);
        h.excess_blob_gas = Some(131072);
        h.parent_beacon_block_root = Some(element(9, n));
    }
    if ts >= 1746612311 {
        h.requests_hash = Some(element(10, n));
    }
    h
}
fn change(h: &mut Header, i: i64) {
    match i {
        0 => h.gas_used += 1,
        1 => h.state_root.0[31] ^= 1,
        2 => h.number ^= 1,
        3 => h.timestamp -= 1,
        4 => h.extra_data = vec![1].into(),
        5 => h.parent_hash.0[0] ^= 0x80,
        6 => h.receipts_root.0[5] ^= 4,
        _ => h.nonce.0[7] ^= 1,
    }
}

pub fn call(o: &Value) -> Value {
    let kind = text(o, "kind");
    let (wire, what, which) = (o["wire"].as_bool().expect("driver: wire"), text(o, "what"), int(o, "which"));
    let (mut pre, mut roots) = TRUSTED.with(|t| {
        t.borrow_mut().get_or_insert_with(|| (PreMergeAccumulator::default(), HistoricalRootsAccumulator::default())).clone()
    });
    let mut summaries: Vec<HistoricalSummary> = (0..int(o, "summaries") as u64)
        .map(|i| HistoricalSummary { block_summary_root: element(100, i), state_summary_root: element(101, i) })
        .collect();

    let mut head = header(int(o, "n") as u64, int(o, "ts") as u64);
    let mut beacon = branch(1 + head.number, int(o, "blen"));
    let mut exec = branch(2 + head.number, int(o, "elen"));
    let mut root = fold(head.hash_slow(), &exec, int(o, "eidx"));
    let mut top = if kind == "hashes" { fold(head.hash_slow(), &beacon, int(o, "bidx")) } else { fold(root, &beacon, int(o, "bidx")) };
    if what == "trusted" {
        spoil(&mut top, which);
    }
    let at = int(o, "bper") as usize;
    match kind {
        "hashes" => pre.historical_epochs.get_mut(at).map(|r| *r = top),
        "roots" => roots.historical_roots.get_mut(at).map(|r| *r = top),
        _ if what == "state" => summaries.get_mut(at.wrapping_sub(758)).map(|r| r.state_summary_root = top),
        _ => summaries.get_mut(at.wrapping_sub(758)).map(|r| r.block_summary_root = top),
    };

    match what {
        "header" => change(&mut head, which),
        "beacon" => spoil(&mut beacon[which as usize], which + 3),
        "exec" => spoil(&mut exec[which as usize], which + 5),
        "root" => spoil(&mut root, which),
        _ => {}
    }
    let slot = match int(o, "per") {
        -1 => u64::MAX - int(o, "pos") as u64,
        p => p as u64 * PERIOD + int(o, "pos") as u64,
    };
    let proof = match kind {
        "hashes" => BlockHeaderProof::HistoricalHashes(FixedVector::new(beacon).expect("driver: branch")),
        "roots" => BlockHeaderProof::HistoricalRoots(BlockProofHistoricalRoots {
            beacon_block_proof: FixedVector::new(beacon).expect("driver: branch"),
            beacon_block_root: root,
            execution_block_proof: FixedVector::new(exec).expect("driver: branch"),
            slot,
        }),
        "capella" => BlockHeaderProof::HistoricalSummariesCapella(BlockProofHistoricalSummariesCapella {
            beacon_block_proof: FixedVector::new(beacon).expect("driver: branch"),
            beacon_block_root: root,
            execution_block_proof: FixedVector::new(exec).expect("driver: branch"),
            slot,
        }),
        _ => BlockHeaderProof::HistoricalSummariesDeneb(BlockProofHistoricalSummariesDeneb {
            beacon_block_proof: FixedVector::new(beacon).expect("driver: branch"),
            beacon_block_root: root,
            execution_block_proof: FixedVector::new(exec).expect("driver: branch"),
            slot,
        }),
    };
    let mut item = Some(HeaderWithProof { header: head, proof });
    if wire {
        let mut b = item.as_ref().map(|i| i.as_ssz_bytes()).unwrap_or_default();
        match what {
            "cut" => b.truncate(b.len() - which as usize),
            "long" => b.extend(vec![0; which as usize]),
            "byte" => b[which as usize] ^= 1,
            _ => {}
        }
        item = HeaderWithProof::from_ssz_bytes(&b).ok();
    }
    let decoded = item.is_some();
    let ok = item.is_some_and(|item| {
        let v = HeaderValidator {
            pre_merge_acc: pre,
            historical_roots_acc: roots,
            historical_summaries_provider: HistoricalSummariesProvider::new(HistoricalSummariesSource::HistoricalSummaries(
                HistoricalSummaries::new(summaries).expect("driver: summaries"),
            )),
        };
        crate::block_on(v.validate_header_with_proof(&item)).is_ok()
    });
    json!({"e": "header", "x": o, "decoded": decoded, "ok": ok})
}
