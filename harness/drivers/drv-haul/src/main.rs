//! Runs the bridge that offers the blocks of archives.  The archives, the census and the network it
//! offers to are a script, time is virtual.
extern crate hist_world as e2store;
extern crate hist_world as reqwest;
extern crate hist_world as trin_legacy_history;
mod bridge {
    #[path = "/repo/bin/portal-bridge/src/bridge/constants.rs"]
    pub mod constants;
    #[path = "/repo/bin/portal-bridge/src/bridge/e2hs.rs"]
    pub mod e2hs;
    #[path = "/repo/bin/portal-bridge/src/bridge/offer_report.rs"]
    pub mod offer_report;
}
mod types {
    #[path = "/repo/bin/portal-bridge/src/types/range.rs"]
    pub mod range;
}
mod census {
    use crate::Shared;
    use discv5::enr::NodeId;
    use ethportal_api::{
        types::{accept_code::AcceptCode, network::Subnetwork, portal_wire::OfferTrace},
        OverlayContentKey,
    };
    use peer::PeerInfo;
    use std::time::Duration;
    pub mod peer {
        use ethportal_api::{types::client_type::ClientType, Enr};
        #[derive(Clone, Debug)]
        pub struct PeerInfo {
            pub enr: Enr,
            pub client_type: ClientType,
        }
    }
    #[derive(Debug)]
    pub struct CensusError;
    #[derive(Clone)]
    pub struct Census(pub Shared);
    impl Census {
        pub fn select_peers(&self, n: Subnetwork, key: &impl OverlayContentKey) -> Result<Vec<PeerInfo>, CensusError> {
            let w = self.0.lock();
            let (kind, b, _) = w.item(&key.to_bytes(), &[]);
            let peers: Vec<_> = w
                .chosen(b, kind)
                .iter()
                .map(|&p| PeerInfo { enr: crate::record(p), client_type: ethportal_api::types::client_type::ClientType::Trin })
                .collect();
            (n == Subnetwork::LegacyHistory && !peers.is_empty()).then_some(peers).ok_or(CensusError)
        }
        pub fn record_offer_result(&self, n: Subnetwork, node_id: NodeId, _: usize, _: Duration, trace: &OfferTrace) {
            let out = match trace {
                _ if n != Subnetwork::LegacyHistory => "other",
                OfferTrace::Success(AcceptCode::Accepted) => "ok",
                OfferTrace::Success(_) => "declined",
                OfferTrace::Failed => "failed",
            };
            self.0.lock().log(serde_json::json!({"e": "told", "p": crate::who(&node_id), "out": out}));
        }
    }
}

use hist_world::{e2hs::BlockTuple, real};
use alloy_rlp::Decodable;
use alloy::{
    consensus::{Header, ReceiptEnvelope, TxEnvelope},
    eips::Decodable2718,
    primitives::{keccak256, B256},
};
use bridge::e2hs::{BlockRange, E2HSBridge};
use common::*;
use discv5::enr::{CombinedKey, NodeId};
use ethportal_api::{
    types::{
        accept_code::AcceptCode,
        execution::{
            accumulator::EpochAccumulator,
            block_body::BlockBody,
            header_with_proof::{BlockHeaderProof, BlockProofHistoricalRoots, BlockProofHistoricalSummariesCapella, HeaderWithProof},
        },
    },
    ContentValue, Enr, LegacyHistoryContentKey, LegacyHistoryContentValue, OverlayContentKey, RawContentKey, Receipts,
};
use hist_world::{
    network::{Answer, LegacyHistoryNetwork},
    Script,
};
use serde_json::{json, Value};
use ssz_types::FixedVector;
use ssz::Decode;
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex, MutexGuard, OnceLock},
    time::Duration,
};
use tokio::time::Instant;
use trin_validation::accumulator::PreMergeAccumulator;

const PEERS: i64 = 3;
const KINDS: [&str; 4] = ["hash", "number", "body", "receipts"];

fn id(p: i64) -> NodeId {
    let mut b = [0u8; 32];
    b[0] = (p * 37) as u8;
    b[31] = p as u8;
    NodeId::new(&b)
}
fn record(p: i64) -> Enr {
    let mut raw = id(p).raw();
    let key = CombinedKey::secp256k1_from_bytes(&mut raw).expect("driver: key");
    Enr::builder().seq(1).ip4("10.0.0.1".parse().unwrap()).udp4(9000 + p as u16).build(&key).expect("driver: record")
}
fn who(n: &NodeId) -> i64 {
    (1..=PEERS).find(|&p| id(p) == *n).unwrap_or(0)
}
fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = vec![192 + body.len() as u8];
    o.extend(body);
    o
}
fn fields(n: usize, salt: u8) -> Vec<u8> {
    list(&(0..n).map(|i| if i % 3 == 2 { vec![130, salt + 128, 200 + i as u8] } else { vec![salt + i as u8] }).collect::<Vec<_>>())
}

fn body(i: usize) -> BlockBody {
    let raw = fields(9, i as u8 + 1);
    BlockBody(alloy::consensus::BlockBody {
        transactions: vec![TxEnvelope::decode_2718(&mut &raw[..]).expect("driver: transaction")],
        ommers: vec![],
        withdrawals: None,
    })
}
fn receipts(i: usize) -> Receipts {
    Receipts(vec![ReceiptEnvelope::decode_2718(&mut &fields(4, i as u8 + 1)[..]).expect("driver: receipt")])
}
/// The header of a block; the proof of a late one is not looked at, that of an early one is wrong.
fn header(i: usize, number: u64, fault: &str) -> HeaderWithProof {
    let header = Header {
        number,
        transactions_root: body(i).transactions_root(),
        receipts_root: receipts(i).root(),
        ommers_hash: alloy::consensus::EMPTY_OMMER_ROOT_HASH,
        timestamp: 1_690_000_000 + i as u64,
        base_fee_per_gas: Some(0),
        ..Default::default()
    };
    let proof = match fault {
        "hashes" => BlockHeaderProof::HistoricalHashes(FixedVector::from(vec![B256::repeat_byte(i as u8); 15])),
        "roots" => BlockHeaderProof::HistoricalRoots(BlockProofHistoricalRoots {
            beacon_block_proof: FixedVector::from(vec![B256::repeat_byte(i as u8); 14]),
            beacon_block_root: B256::ZERO,
            execution_block_proof: FixedVector::from(vec![B256::ZERO; 11]),
            slot: 4_700_013,
        }),
        _ => BlockHeaderProof::HistoricalSummariesCapella(BlockProofHistoricalSummariesCapella {
            beacon_block_proof: FixedVector::from(vec![B256::repeat_byte(i as u8); 13]),
            beacon_block_root: B256::ZERO,
            execution_block_proof: FixedVector::from(vec![B256::ZERO; 11]),
            slot: 7,
        }),
    };
    HeaderWithProof { header, proof }
}
/// Undoes the compression of an archive's entry.
fn inflate(mut data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    while data.len() >= 4 {
        let len = u32::from_le_bytes([data[1], data[2], data[3], 0]) as usize;
        let (kind, chunk) = (data[0], &data[4..4 + len]);
        data = &data[4 + len..];
        match kind {
            0 => out.extend(expand(&chunk[4..])),
            1 => out.extend(&chunk[4..]),
            _ => {}
        }
    }
    out
}
fn expand(mut d: &[u8]) -> Vec<u8> {
    let mut take = |n: usize| {
        let (a, b) = d.split_at(n.min(d.len()));
        d = b;
        a
    };
    while take(1)[0] >= 128 {}
    let mut out: Vec<u8> = vec![];
    while let [tag] = *take(1) {
        let (n, high) = ((tag >> 2) as usize, (tag >> 5) as usize);
        let (len, back) = match tag & 3 {
            0 if n < 60 => (n + 1, 0),
            0 => (take(n - 59).iter().rev().fold(0, |a, b| a << 8 | *b as usize) + 1, 0),
            1 => ((n & 7) + 4, high << 8 | take(1)[0] as usize),
            t => (n + 1, take(2 * t as usize - 2).iter().rev().fold(0, |a, b| a << 8 | *b as usize)),
        };
        if back == 0 {
            out.extend(take(len));
        } else {
            (0..len).for_each(|_| out.push(out[out.len() - back]));
        }
    }
    out
}
/// Blocks of the first epoch as they were, with their proofs; none if a block is not an empty one.
fn genuine(number: u64) -> Option<BlockTuple> {
    static BLOCKS: OnceLock<BTreeMap<u64, BlockTuple>> = OnceLock::new();
    let all = BLOCKS.get_or_init(|| {
        let read = |name: &str| std::fs::read(format!("/repo/{name}")).unwrap_or_default();
        let epoch = read("crates/validation/src/assets/epoch_accs/0x5ec1ffb8c3b146f42606c74ced973dc16ec5a107c0345858c343fc94780b4218.bin");
        let archive = read("test_assets/era1/mainnet-00000-5ec1ffb8.era1");
        let mut blocks = BTreeMap::new();
        let Ok(epoch) = EpochAccumulator::from_ssz_bytes(&epoch) else { return blocks };
        let mut rest = &archive[..];
        while rest.len() >= 8 {
            let len = u32::from_le_bytes([rest[2], rest[3], rest[4], rest[5]]) as usize;
            let (kind, entry) = (rest[0], &rest[8..8 + len]);
            rest = &rest[8 + len..];
            let Some(header) = (kind == 3).then(|| inflate(entry)).and_then(|raw| Header::decode(&mut &raw[..]).ok()) else { continue };
            let empty = BlockBody(alloy::consensus::BlockBody { transactions: vec![], ommers: vec![], withdrawals: None });
            if header.ommers_hash != alloy::consensus::EMPTY_OMMER_ROOT_HASH || header.transactions_root != empty.transactions_root() {
                continue;
            }
            if ![0, 1, 4096, 8190, 8191].contains(&header.number) {
                continue;
            }
            let Ok(proof) = PreMergeAccumulator::construct_proof(&header, &epoch) else { continue };
            let number = header.number;
            let header_with_proof = HeaderWithProof { header, proof: BlockHeaderProof::HistoricalHashes(proof) };
            let tuple = BlockTuple {
                header_with_proof: real::e2hs::HeaderWithProofEntry { header_with_proof },
                body: real::era1::BodyEntry { body: empty },
                receipts: real::era1::ReceiptsEntry { receipts: Receipts(vec![]) },
            };
            blocks.insert(number, tuple);
        }
        blocks
    });
    all.get(&number).cloned()
}
struct Block {
    number: u64,
    tuple: BlockTuple,
    hash: B256,
}

pub struct World {
    cfg: Value,
    blocks: Vec<Block>,
    log: Vec<Value>,
    offers: Vec<Value>,
    start: Instant,
}
impl World {
    fn log(&mut self, mut e: Value) {
        e["t"] = json!(self.start.elapsed().as_millis() as u64);
        self.log.push(e);
    }
    fn pick(&self, what: &str, n: usize) -> &Value {
        let all = self.cfg[what].as_array().expect("driver: list");
        &all[n % all.len()]
    }
    /// Peers and answers depend on the item, counted from nought.
    fn place(&self, b: i64, kind: &str) -> usize {
        b as usize * 4 + KINDS.iter().position(|k| *k == kind).unwrap_or(0)
    }
    fn chosen(&self, b: i64, kind: &str) -> Vec<i64> {
        self.pick("cp", self.place(b, kind)).as_array().expect("driver: peers").iter().filter_map(|p| p.as_i64()).collect()
    }
    /// What kind of item this is, which block it belongs to, and whether it is what its key says.
    fn item(&self, key: &[u8], value: &[u8]) -> (&'static str, i64, bool) {
        use LegacyHistoryContentKey as K;
        use LegacyHistoryContentValue as V;
        let Ok(key) = K::try_from_bytes(&RawContentKey::from(key.to_vec())) else { return ("other", 0, false) };
        let hash = |h: [u8; 32]| self.blocks.iter().position(|b| b.hash.0 == h);
        let (kind, at) = match &key {
            K::BlockHeaderByHash(k) => (KINDS[0], hash(k.block_hash)),
            K::BlockHeaderByNumber(k) => (KINDS[1], self.blocks.iter().position(|b| b.number == k.block_number)),
            K::BlockBody(k) => (KINDS[2], hash(k.block_hash)),
            K::BlockReceipts(k) => (KINDS[3], hash(k.block_hash)),
            _ => ("other", None),
        };
        let Some(at) = at else { return (kind, 0, false) };
        let t = &self.blocks[at].tuple;
        let want = match kind {
            "body" => V::BlockBody(t.body.body.clone()),
            "receipts" => V::Receipts(t.receipts.receipts.clone()),
            _ => V::BlockHeaderWithProof(t.header_with_proof.header_with_proof.clone()),
        };
        (kind, at as i64 + 1, want.encode().to_vec() == value)
    }
}
#[derive(Clone)]
pub struct Shared(Arc<Mutex<World>>);
impl Shared {
    fn lock(&self) -> MutexGuard<'_, World> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl Script for Shared {
    fn epochs(&self) -> Vec<u64> {
        let w = self.lock();
        (int(&w.cfg, "first") as u64..=int(&w.cfg, "last") as u64).collect()
    }
    fn file(&self, epoch: u64) -> Vec<BlockTuple> {
        self.lock().blocks.iter().filter(|b| b.number / 8192 == epoch).map(|b| b.tuple.clone()).collect()
    }
    fn begin(&self, enr: &Enr, key: Vec<u8>, value: Vec<u8>) -> (usize, Answer) {
        let mut w = self.lock();
        let p = who(&enr.node_id());
        let (kind, b, ok) = w.item(&key, &value);
        let n = w.offers.len();
        let ms = (keccak256(n.to_be_bytes()).0[0] % 40) as u64;
        w.offers.push(json!({"e": "end", "b": b, "kind": kind, "p": p}));
        w.log(json!({"e": "begin", "b": b, "kind": kind, "p": p, "ok": ok}));
        let answer = match w.pick("ans", w.place(b, kind) * 5 + p as usize).as_str() {
            Some("ok") => Answer::Code(AcceptCode::Accepted, ms),
            Some("declined") => Answer::Code(AcceptCode::AlreadyStored, ms),
            Some("failed") => Answer::Failed(ms),
            Some("error") => Answer::Error(ms),
            _ => Answer::Silence,
        };
        (n, answer)
    }
    fn end(&self, n: usize) {
        let mut w = self.lock();
        let e = w.offers[n].clone();
        w.log(e);
    }
}

async fn play(cfg: &Value) -> Vec<Value> {
    let blocks = cfg["blocks"]
        .as_array()
        .expect("driver: blocks")
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let (number, fault) = (int(b, "n") as u64, text(b, "fault"));
            if let Some(tuple) = (fault == "genuine").then(|| genuine(number)).flatten() {
                return Block { number, hash: tuple.header_with_proof.header_with_proof.header.hash_slow(), tuple };
            }
            let header_with_proof = header(i, number, fault);
            Block {
                number,
                hash: header_with_proof.header.hash_slow(),
                tuple: BlockTuple {
                    header_with_proof: real::e2hs::HeaderWithProofEntry { header_with_proof },
                    body: real::era1::BodyEntry { body: body(if fault == "body" { i + 1 } else { i }) },
                    receipts: real::era1::ReceiptsEntry { receipts: receipts(if fault == "receipts" { i + 1 } else { i }) },
                },
            }
        })
        .collect();
    let world = Shared(Arc::new(Mutex::new(World { cfg: cfg.clone(), blocks, log: vec![], offers: vec![], start: Instant::now() })));
    let shared: hist_world::World = Arc::new(world.clone());
    hist_world::set(shared.clone());
    let end = int(cfg, "end");
    let range = BlockRange { start: int(cfg, "start") as u64, end: (end > 0).then_some(end as u64) };
    let network = Arc::new(LegacyHistoryNetwork::new(shared));
    let bridge = E2HSBridge::new(network, int(cfg, "limit") as usize, range, int(cfg, "random") == 1, census::Census(world.clone())).await;
    let bridge = bridge.expect("driver: bridge");
    let over = tokio::time::timeout(Duration::from_secs(1_000_000), bridge.launch()).await.is_ok();
    let mut w = world.lock();
    w.log(json!({"e": if over { "done" } else { "hang" }}));
    w.log.clone()
}

fn main() {
    run(|i, p| {
        let cfg = p["ops"][0]["c"].clone();
        let r = guarded(|| {
            tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime").block_on(play(&cfg))
        });
        let ev = r.unwrap_or_else(|m| vec![panic_event("program", &m)]);
        vec![json!({"id": i, "cfg": cfg, "ev": ev})]
    });
}
