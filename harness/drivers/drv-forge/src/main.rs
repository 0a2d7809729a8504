//! Builds headers with proofs and bodies from beacon blocks of every fork, and proofs of old headers.
use alloy::{
    consensus::{proofs, Header, TxEnvelope},
    eips::{
        eip4895::{Withdrawal as Paid, Withdrawals},
        Decodable2718,
    },
    primitives::{Address, B256, U256},
};
use common::*;
use ethportal_api::{
    consensus::{
        beacon_block::*, beacon_state::HistoricalBatch, body::*, consolidation_request::ConsolidationRequest,
        execution_payload::*, execution_requests::ExecutionRequests,
        historical_summaries::{HistoricalSummaries, HistoricalSummary},
        kzg_commitment::KzgCommitment, signature::BlsSignature, withdrawal_request::WithdrawalRequest,
    },
    types::execution::{
        accumulator::{EpochAccumulator, HeaderRecord},
        block_body::BlockBody,
        builders::block::ExecutionBlockBuilder,
        header_with_proof::*,
    },
};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use ssz::Encode;
use ssz_types::{FixedVector, VariableList};
use std::cell::RefCell;
use tree_hash::TreeHash;
use trin_validation::{
    accumulator::PreMergeAccumulator,
    header_validator::HeaderValidator,
    historical_roots_acc::HistoricalRootsAccumulator,
    historical_summaries_provider::{HistoricalSummariesProvider, HistoricalSummariesSource},
};

thread_local! {
    static TRUSTED: RefCell<Option<(PreMergeAccumulator, HistoricalRootsAccumulator, Vec<B256>)>> = const { RefCell::new(None) };
}

fn element(salt: u64, i: u64) -> B256 {
    B256::from_slice(&Sha256::new().chain_update(salt.to_be_bytes()).chain_update(i.to_be_bytes()).finalize())
}
fn fold(leaf: B256, branch: &[B256], at: i64) -> B256 {
    let mut h = leaf;
    for (i, b) in branch.iter().enumerate() {
        let (l, r) = if at >> i & 1 == 1 { (b, &h) } else { (&h, b) };
        h = B256::from_slice(&Sha256::new().chain_update(l).chain_update(r).finalize());
    }
    h
}
fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = if body.len() < 56 { vec![192 + body.len() as u8] } else { vec![248, body.len() as u8] };
    o.extend(body);
    o
}
fn fields(n: usize, salt: u8) -> Vec<u8> {
    list(&(0..n).map(|i| if i % 3 == 2 { vec![130, salt + 128, 200 + i as u8] } else { vec![salt + i as u8] }).collect::<Vec<_>>())
}
fn transactions(n: i64) -> Vec<Vec<u8>> {
    let typed = |t: u8, n, salt| [vec![t], fields(n, salt)].concat();
    vec![fields(9, 1), typed(2, 12, 2), typed(1, 11, 3), typed(3, 14, 4)][..n as usize].to_vec()
}
fn signature(salt: u8) -> BlsSignature {
    BlsSignature { signature: [salt; 96] }
}
fn key(salt: u8) -> ethportal_api::consensus::pubkey::PubKey {
    ssz::Decode::from_ssz_bytes(&[salt; 48]).expect("driver: key")
}
fn requests(n: i64) -> ExecutionRequests {
    let mut r = ExecutionRequests::default();
    if n & 1 == 1 {
        r.withdrawals = VariableList::from(vec![WithdrawalRequest { source_address: Address::repeat_byte(1), validator_pubkey: key(2), amount: 3 }]);
    }
    if n & 2 == 2 {
        r.consolidations =
            VariableList::from(vec![ConsolidationRequest { source_address: Address::repeat_byte(4), source_pubkey: key(5), target_pubkey: key(6) }]);
    }
    r
}
fn requests_hash(r: &ExecutionRequests) -> B256 {
    let all = [(0u8, r.deposits.as_ssz_bytes()), (1, r.withdrawals.as_ssz_bytes()), (2, r.consolidations.as_ssz_bytes())];
    let each = all.iter().filter(|(_, d)| !d.is_empty()).map(|(t, d)| Sha256::new().chain_update([*t]).chain_update(d).finalize());
    B256::from_slice(&each.fold(Sha256::new(), |h, x| h.chain_update(x)).finalize())
}

/// A payload of the given fork; the fields that only some forks have are named.
macro_rules! payload {
    ($t:ident, $o:expr, $raw:expr, $hash:expr $(, $f:ident: $v:expr)*) => {{
        let n = int($o, "n") as u64;
        $t {
            parent_hash: element(1, n),
            fee_recipient: Address::repeat_byte(7),
            state_root: element(2, n),
            receipts_root: element(3, n),
            logs_bloom: FixedVector::new((0..256).map(|i| (i * 7) as u8).collect()).expect("driver: bloom"),
            prev_randao: element(4, n),
            block_number: n,
            gas_limit: 30_000_000,
            gas_used: 21_000,
            timestamp: int($o, "ts") as u64,
            extra_data: VariableList::from(vec![9u8; (n % 33) as usize]),
            base_fee_per_gas: U256::from(1_000_007u64),
            block_hash: $hash,
            transactions: VariableList::from($raw.iter().map(|r: &Vec<u8>| VariableList::from(r.clone())).collect::<Vec<_>>()),
            $($f: $v),*
        }
    }};
}
macro_rules! block {
    ($t:ident, $b:ident, $slot:expr, $payload:expr $(, $f:ident: $v:expr)*) => {
        $t {
            slot: $slot,
            proposer_index: 11,
            parent_root: element(5, $slot),
            state_root: element(6, $slot),
            body: $b {
                randao_reveal: signature(1),
                eth1_data: Eth1Data { deposit_root: element(7, 0), deposit_count: 5, block_hash: element(8, 0) },
                graffiti: element(9, 0),
                proposer_slashings: Default::default(),
                attester_slashings: Default::default(),
                attestations: Default::default(),
                deposits: Default::default(),
                voluntary_exits: VariableList::from(vec![ssz::Decode::from_ssz_bytes(&[3u8; 112]).expect("driver: exit")]),
                sync_aggregate: SyncAggregate { sync_committee_bits: Default::default(), sync_committee_signature: signature(3) },
                execution_payload: $payload,
                $($f: $v),*
            },
        }
    };
}

fn header(o: &Value, txs: &[TxEnvelope], paid: &[Paid], parent: B256, reqs: &ExecutionRequests) -> Header {
    let has = |f: &str| o["has"].as_array().is_some_and(|a| a.iter().any(|x| x == f));
    let n = int(o, "n") as u64;
    Header {
        parent_hash: element(1, n),
        beneficiary: Address::repeat_byte(7),
        state_root: element(2, n),
        transactions_root: proofs::calculate_transaction_root(txs),
        receipts_root: element(3, n),
        logs_bloom: alloy::primitives::Bloom::from_slice(&(0..256).map(|i| (i * 7) as u8).collect::<Vec<u8>>()),
        number: n,
        gas_limit: 30_000_000,
        gas_used: 21_000,
        timestamp: int(o, "ts") as u64,
        extra_data: vec![9u8; (n % 33) as usize].into(),
        mix_hash: element(4, n),
        base_fee_per_gas: Some(1_000_007),
        withdrawals_root: has("withdrawals").then(|| proofs::calculate_withdrawals_root(paid)),
        blob_gas_used: has("blobs").then_some(131_072),
        excess_blob_gas: has("blobs").then_some(262_144),
        parent_beacon_block_root: has("parent").then_some(parent),
        requests_hash: has("requests").then(|| requests_hash(reqs)),
        ..Default::default()
    }
}

fn kind(p: &BlockHeaderProof) -> &'static str {
    match p {
        BlockHeaderProof::HistoricalHashes(_) => "hashes",
        BlockHeaderProof::HistoricalRoots(_) => "roots",
        BlockHeaderProof::HistoricalSummariesCapella(_) => "capella",
        BlockHeaderProof::HistoricalSummariesDeneb(_) => "deneb",
    }
}

fn call(o: &Value) -> Value {
    let (fork, wrong, pos, per) = (text(o, "fork"), text(o, "wrong"), int(o, "pos") as u64, int(o, "per") as u64);
    let (mut pre, mut roots, elements) = TRUSTED.with(|t| {
        t.borrow_mut()
            .get_or_insert_with(|| (PreMergeAccumulator::default(), HistoricalRootsAccumulator::default(), (0..8192).map(|i| element(50, i)).collect()))
            .clone()
    });
    let no = || json!({"e": "forge", "x": o, "built": false, "same": false, "body": false, "kind": "", "lens": [], "slot": [], "tied": false, "rooted": false, "accepted": false});
    let mut raw = transactions(int(o, "txs"));
    let txs: Vec<TxEnvelope> = raw.iter().map(|r| TxEnvelope::decode_2718(&mut &r[..]).expect("driver: transaction")).collect();
    if wrong == "tx" {
        raw.last_mut().map(|r| r.truncate(r.len() / 2));
    }
    let wds: Vec<Withdrawal> =
        (0..int(o, "wds") as u64).map(|i| Withdrawal { index: i + 5, validator_index: 7 + i, address: Address::repeat_byte(i as u8 + 1), amount: 1 << (20 * i) }).collect();
    let paid: Vec<Paid> = wds.iter().map(Paid::from).collect();
    let reqs = requests(int(o, "reqs"));
    let slot = per * 8192 + pos;
    let expected = header(o, &txs, &paid, element(5, slot), &reqs);
    let mut hash = expected.hash_slow();
    if wrong == "hash" {
        hash.0[3] ^= 1;
    }

    if fork == "early" {
        let len = int(o, "len") as u64;
        let mut records: Vec<HeaderRecord> =
            (0..len).map(|i| HeaderRecord { block_hash: elements[i as usize].0.into(), total_difficulty: U256::from(1_000_000 + i * 1_000) }).collect();
        records[pos as usize].block_hash = hash.0.into();
        let epoch = EpochAccumulator::from(records);
        let root = B256::from_slice(&epoch.tree_hash_root().0[..]);
        let Ok(proof) = PreMergeAccumulator::construct_proof(&expected, &epoch) else { return no() };
        if let Some(r) = pre.historical_epochs.get_mut(per as usize) {
            *r = root;
        }
        let rooted = fold(expected.hash_slow(), &proof, int(o, "bidx")) == root;
        let item = HeaderWithProof { header: expected, proof: BlockHeaderProof::HistoricalHashes(proof.clone()) };
        let accepted = accepted(&item, pre, roots, vec![]);
        return json!({"e": "forge", "x": o, "built": true, "same": true, "body": true, "kind": "hashes", "lens": [proof.len()], "slot": [],
            "tied": true, "rooted": rooted, "accepted": accepted});
    }

    let bls = VariableList::default();
    let kzg = VariableList::from(vec![KzgCommitment([8; 48])]);
    let wd = || VariableList::from(wds.clone());
    let mut block_roots = elements.clone();
    let state_roots: Vec<B256> = elements.iter().rev().copied().collect();
    let mut batch = |root: B256| {
        block_roots[pos as usize] = root;
        HistoricalBatch {
            block_roots: FixedVector::new(block_roots.clone()).expect("driver: roots"),
            state_roots: FixedVector::new(state_roots.clone()).expect("driver: roots"),
        }
    };
    let (root, b, built) = match fork {
        "bellatrix" => {
            let p = payload!(ExecutionPayloadBellatrix, o, raw, hash);
            let x = block!(BeaconBlockBellatrix, BeaconBlockBodyBellatrix, slot, p);
            let root = x.tree_hash_root();
            let b = batch(root);
            let built = ExecutionBlockBuilder::build(&SignedBeaconBlock::Bellatrix(SignedBeaconBlockBellatrix { message: x, signature: signature(4) }), &b);
            (root, b, built)
        }
        "capella" => {
            let p = payload!(ExecutionPayloadCapella, o, raw, hash, withdrawals: wd());
            let x = block!(BeaconBlockCapella, BeaconBlockBodyCapella, slot, p, bls_to_execution_changes: bls);
            let root = x.tree_hash_root();
            let b = batch(root);
            let built = ExecutionBlockBuilder::build(&SignedBeaconBlock::Capella(SignedBeaconBlockCapella { message: x, signature: signature(4) }), &b);
            (root, b, built)
        }
        "deneb" => {
            let p = payload!(ExecutionPayloadDeneb, o, raw, hash, withdrawals: wd(), blob_gas_used: 131_072, excess_blob_gas: 262_144);
            let x = block!(BeaconBlockDeneb, BeaconBlockBodyDeneb, slot, p, bls_to_execution_changes: bls, blob_kzg_commitments: kzg);
            let root = x.tree_hash_root();
            let b = batch(root);
            let built = ExecutionBlockBuilder::build(&SignedBeaconBlock::Deneb(SignedBeaconBlockDeneb { message: x, signature: signature(4) }), &b);
            (root, b, built)
        }
        _ => {
            let p = payload!(ExecutionPayloadElectra, o, raw, hash, withdrawals: wd(), blob_gas_used: 131_072, excess_blob_gas: 262_144);
            let x = block!(BeaconBlockElectra, BeaconBlockBodyElectra, slot, p, bls_to_execution_changes: bls, blob_kzg_commitments: kzg, execution_requests: reqs.clone());
            let root = x.tree_hash_root();
            let b = batch(root);
            let built = ExecutionBlockBuilder::build(&SignedBeaconBlock::Electra(SignedBeaconBlockElectra { message: x, signature: signature(4) }), &b);
            (root, b, built)
        }
    };
    let Ok((item, body)) = built else { return no() };
    let want = BlockBody(alloy::consensus::BlockBody {
        transactions: txs,
        ommers: vec![],
        withdrawals: (fork != "bellatrix").then(|| Withdrawals::new(paid)),
    });
    let (beacon, claimed, exec, at): (Vec<B256>, B256, Vec<B256>, u64) = match &item.proof {
        BlockHeaderProof::HistoricalRoots(p) => (p.beacon_block_proof.to_vec(), p.beacon_block_root, p.execution_block_proof.to_vec(), p.slot),
        BlockHeaderProof::HistoricalSummariesCapella(p) => (p.beacon_block_proof.to_vec(), p.beacon_block_root, p.execution_block_proof.to_vec(), p.slot),
        BlockHeaderProof::HistoricalSummariesDeneb(p) => (p.beacon_block_proof.to_vec(), p.beacon_block_root, p.execution_block_proof.to_vec(), p.slot),
        BlockHeaderProof::HistoricalHashes(p) => (p.to_vec(), B256::ZERO, vec![], 0),
    };
    let top = if fork == "bellatrix" { b.tree_hash_root() } else { b.block_roots.tree_hash_root() };
    let tied = claimed == root && fold(item.header.hash_slow(), &exec, int(o, "eidx")) == root;
    let rooted = fold(root, &beacon, int(o, "bidx")) == top;
    let mut summaries = vec![];
    if fork == "bellatrix" {
        if let Some(r) = roots.historical_roots.get_mut(per as usize) {
            *r = top;
        }
    } else {
        summaries = vec![HistoricalSummary { block_summary_root: element(60, 0), state_summary_root: element(61, 0) }; (per - 757) as usize];
        summaries[(per - 758) as usize].block_summary_root = top;
    }
    let (same, fits, kind, lens) = (item.header == expected, body == want, kind(&item.proof), vec![beacon.len(), exec.len()]);
    let accepted = accepted(&item, pre, roots, summaries);
    json!({"e": "forge", "x": o, "built": true, "same": same, "body": fits, "kind": kind, "lens": lens, "slot": [at / 8192, at % 8192],
        "tied": tied, "rooted": rooted, "accepted": accepted})
}

fn accepted(item: &HeaderWithProof, pre: PreMergeAccumulator, roots: HistoricalRootsAccumulator, summaries: Vec<HistoricalSummary>) -> bool {
    let v = HeaderValidator {
        pre_merge_acc: pre,
        historical_roots_acc: roots,
        historical_summaries_provider: HistoricalSummariesProvider::new(HistoricalSummariesSource::HistoricalSummaries(
            HistoricalSummaries::new(summaries).expect("driver: summaries"),
        )),
    };
    tokio::runtime::Builder::new_current_thread().build().expect("runtime").block_on(v.validate_header_with_proof(item)).is_ok()
}

fn main() {
    run(|i, p| {
        let ev: Vec<Value> = p["ops"]
            .as_array()
            .expect("ops")
            .iter()
            .map(|o| guarded(|| call(o)).unwrap_or_else(|m| panic_event(text(o, "fork"), &m)))
            .collect();
        vec![json!({"id": i, "cfg": {}, "ev": ev})]
    });
}
