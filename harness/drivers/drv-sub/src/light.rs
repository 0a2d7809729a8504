//! The light client, fed with honest and forged bootstraps and updates.
use crate::block_on;
use alloy::primitives::B256;
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use common::*;
use ethportal_api::{
    consensus::{body::SyncAggregate, header::BeaconBlockHeader, pubkey::PubKey, signature::BlsSignature, sync_committee::SyncCommittee},
    light_client::{bootstrap::*, finality_update::*, header::*, optimistic_update::*, update::*},
};
use light_client::{
    config::{client_config::Config, networks},
    consensus::{
        rpc::{portal_rpc::expected_current_slot, ConsensusRpc},
        ConsensusLightClient,
    },
    watch::LightClientWatchReceivers,
};
use milagro_bls::{AggregateSignature, PublicKey};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use ssz_types::{BitVector, FixedVector};
use std::{collections::HashMap, sync::{Arc, Mutex}};
use tree_hash::TreeHash;

const PERIOD: u64 = 8192;
const SIZE: usize = 512;

pub fn hash(a: B256, b: B256) -> B256 {
    let mut h = Sha256::new();
    h.update(a.as_slice());
    h.update(b.as_slice());
    B256::from_slice(&h.finalize())
}
pub fn filler(i: usize) -> B256 {
    let mut b = B256::ZERO;
    b.0[0] = 0xF0;
    b.0[1] = i as u8;
    b
}

fn committee(id: i64) -> SyncCommittee {
    let key = |i: usize| {
        let mut k = vec![0u8; 48];
        k[0] = id as u8;
        k[1..3].copy_from_slice(&(i as u16).to_be_bytes());
        PubKey { inner: FixedVector::from(k) }
    };
    SyncCommittee { pubkeys: FixedVector::from((0..SIZE).map(key).collect::<Vec<_>>()), aggregate_pubkey: key(SIZE) }
}

/// The state a header commits to, as far as light clients look at it.
pub struct State(Vec<Vec<B256>>, B256, B256);
impl State {
    fn new(current: B256, next: B256, fin: (B256, B256)) -> Self {
        let mut row: Vec<B256> = (0..64).map(filler).collect();
        row[20] = hash(fin.0, fin.1);
        row[22] = current;
        row[23] = next;
        let mut rows = vec![row];
        while rows.last().unwrap().len() > 1 {
            rows.push(rows.last().unwrap().chunks(2).map(|c| hash(c[0], c[1])).collect());
        }
        State(rows, fin.0, fin.1)
    }
    fn root(&self) -> B256 {
        self.0[6][0]
    }
    fn branch(&self, mut i: usize) -> Vec<B256> {
        (0..6).map(|r| { let x = self.0[r][i ^ 1]; i /= 2; x }).collect()
    }
    /// Of the left or the right half of the finalized checkpoint.
    fn fin_branch(&self, right: bool) -> Vec<B256> {
        let mut b = vec![if right { self.1 } else { self.2 }];
        b.extend(self.branch(20));
        b
    }
}

pub struct Forge {
    pub first: u64,
    pub coms: HashMap<i64, (SyncCommittee, B256)>,
    pub heads: HashMap<B256, (i64, i64)>,
    pub genesis: B256,
}
pub struct Made {
    pub att: LightClientHeaderElectra,
    pub fin: LightClientHeaderElectra,
    pub next: SyncCommittee,
    pub fin_branch: Vec<B256>,
    pub next_branch: Vec<B256>,
    pub agg: SyncAggregate,
    pub sig: u64,
}
impl Forge {
    pub fn com(&mut self, id: i64) -> (SyncCommittee, B256) {
        self.coms
            .entry(id)
            .or_insert_with(|| {
                let c = committee(id);
                let r = c.tree_hash_root();
                (c, r)
            })
            .clone()
    }
    fn slot(&self, rel: i64) -> u64 {
        (self.first as i64 + rel) as u64
    }
    pub fn header(&mut self, rel: i64, tag: i64, state_root: B256) -> BeaconBlockHeader {
        let h = BeaconBlockHeader { slot: self.slot(rel), proposer_index: tag as u64, state_root, ..Default::default() };
        self.heads.insert(h.tree_hash_root(), (rel, tag));
        h
    }
    fn head(b: BeaconBlockHeader) -> LightClientHeaderElectra {
        LightClientHeaderElectra { beacon: b, ..Default::default() }
    }
    fn named(&self, h: &BeaconBlockHeader) -> Value {
        match self.heads.get(&h.tree_hash_root()) {
            Some((rel, tag)) => json!([rel, tag]),
            None => json!([-1, if *h == BeaconBlockHeader::default() { 0 } else { -1 }]),
        }
    }
    /// The tags of the updates last told, -1 if the parts of one do not belong together.
    fn told(&self, w: &LightClientWatchReceivers) -> Value {
        let tag = |att: &LightClientHeaderElectra, fin: Option<&LightClientHeaderElectra>| -> i64 {
            let name = |h: &LightClientHeaderElectra| self.heads.get(&h.beacon.tree_hash_root()).map_or(-1, |x| x.1);
            let t = name(att);
            if fin.is_some_and(|f| name(f) != 1000 + t) { -1 } else { t }
        };
        let update = match &*w.update.borrow() {
            None => 0,
            Some(LightClientUpdate::Electra(u)) => tag(&u.attested_header, Some(&u.finalized_header)),
            _ => -1,
        };
        let finality = match &*w.finality_update.borrow() {
            None => 0,
            Some(LightClientFinalityUpdate::Electra(u)) => tag(&u.attested_header, Some(&u.finalized_header)),
            _ => -1,
        };
        let optimistic = match &*w.optimistic_update.borrow() {
            None => 0,
            Some(LightClientOptimisticUpdate::Electra(u)) => tag(&u.attested_header, None),
            _ => -1,
        };
        json!({"update": update, "finality": finality, "optimistic": optimistic})
    }
    fn com_name(&mut self, c: &SyncCommittee) -> i64 {
        let id = c.pubkeys[0].inner[0] as i64;
        if self.com(id).0 == *c { id } else { -1 }
    }

    pub fn make(&mut self, u: &Value) -> Made {
        let fault = text(u, "fault");
        let tag = int(u, "tag");
        let next_id = int(u, "next").max(0);
        let (next, next_root) = self.com(next_id);
        let other = self.com(77).1;
        let fin = self.header(int(u, "fin"), 1000 + tag, filler(99));
        let fin_root = fin.tree_hash_root();
        let (at22, at23) = match fault {
            "nextplace" => (next_root, other),
            "nextother" => (other, filler(50)),
            _ => (other, next_root),
        };
        let (left, right) = match fault {
            "finplace" => (fin_root, filler(60)),
            "finother" => (filler(61), filler(62)),
            _ => (filler(63), fin_root),
        };
        let state = State::new(at22, at23, (left, right));
        let mut fin_branch = state.fin_branch(fault != "finplace");
        let mut next_branch = state.branch(if fault == "nextplace" { 22 } else { 23 });
        let salt = tag as usize;
        if fault == "finproof" {
            fin_branch[salt % 7].0[salt % 32] ^= 1;
        }
        if fault == "nextproof" {
            next_branch[salt % 6].0[salt % 32] ^= 1;
        }
        let att = self.header(int(u, "att"), tag, state.root());

        let n = int(u, "bits") as usize;
        let on = |i: usize| if int(u, "from") == 0 { i < n } else { i >= SIZE - n };
        let mut bits = BitVector::new();
        for i in 0..SIZE {
            bits.set(i, on(i)).expect("driver: bit");
        }
        let signer = self.com(int(u, "signer")).0;
        // one key too many, or too few when all take part
        let extra = if n == SIZE { 1 } else { (0..SIZE).find(|&i| !on(i)).expect("driver: bit") };
        let keys: Vec<PublicKey> = (0..SIZE)
            .filter(|&i| if fault == "set" && i == extra { !on(i) } else { on(i) })
            .map(|i| PublicKey::from_bytes_unchecked(&signer.pubkeys[i].inner[..]).expect("driver: key"))
            .collect();
        let mut version = B256::ZERO;
        version.0[0] = if fault == "domain" { 4 } else { 5 };
        let genesis = if fault == "genesis" { filler(70) } else { self.genesis };
        let mut domain = [0u8; 32];
        domain[0] = if fault == "kind" { 6 } else { 7 };
        domain[4..].copy_from_slice(&hash(version, genesis).as_slice()[..28]);
        let signed = if fault == "msg" { fin_root } else { att.tree_hash_root() };
        let msg = hash(signed, B256::from(domain));
        let mut signature = AggregateSignature::of(msg.as_slice(), &keys.iter().collect::<Vec<_>>()).as_bytes();
        if fault == "sig" {
            signature[salt % 32] ^= 1;
        }
        Made {
            att: Self::head(att),
            fin: Self::head(fin),
            next,
            fin_branch,
            next_branch,
            agg: SyncAggregate { sync_committee_bits: bits, sync_committee_signature: BlsSignature { signature } },
            sig: self.slot(int(u, "sig")),
        }
    }

    fn checkpoint(&mut self, cfg: &Value) -> (BeaconBlockHeader, State) {
        let (c, n) = (self.com(int(cfg, "cur")).1, self.com(int(cfg, "cur") + 1).1);
        let s = State::new(c, n, (filler(1), filler(2)));
        (self.header(int(cfg, "slot"), 0, s.root()), s)
    }
    fn bootstrap(&mut self, cfg: &Value, b: &Value) -> LightClientBootstrapElectra {
        let (mut h, s) = self.checkpoint(cfg);
        let mut com = int(cfg, "cur");
        let mut branch = s.branch(22);
        match text(b, "fault") {
            "header" => {
                com = 9;
                let root = self.com(9).1;
                let s = State::new(root, filler(3), (filler(1), filler(2)));
                branch = s.branch(22);
                h = self.header(int(cfg, "slot"), 500, s.root());
            }
            "proof" => branch[3].0[5] ^= 1,
            "place" => {
                com += 1;
                branch = s.branch(23);
            }
            "other" => com = 9,
            "future" => {
                com = 9;
                let root = self.com(9).1;
                let s = State::new(root, filler(3), (filler(1), filler(2)));
                branch = s.branch(22);
                h = self.header(5 * PERIOD as i64 + 9, 501, s.root());
            }
            _ => {}
        }
        LightClientBootstrapElectra {
            header: Self::head(h),
            current_sync_committee: self.com(com).0,
            current_sync_committee_branch: FixedVector::from(branch),
        }
    }
}

struct Script {
    forge: Forge,
    cfg: Value,
    op: Value,
    at: usize,
    served: Vec<Value>,
    asked: Vec<Value>,
}
#[derive(Clone)]
struct Rpc(Arc<Mutex<Script>>);

#[async_trait]
impl ConsensusRpc for Rpc {
    fn new(_path: &str) -> Self {
        unreachable!("driver: not built from a path")
    }
    async fn get_bootstrap(&self, _root: B256) -> Result<LightClientBootstrapElectra> {
        let s = &mut *self.0.lock().unwrap();
        let b = s.op["boot"].clone();
        Ok(s.forge.bootstrap(&s.cfg, &b))
    }
    async fn get_updates(&self, period: u64, count: u8) -> Result<Vec<LightClientUpdateElectra>> {
        let s = &mut *self.0.lock().unwrap();
        let first = s.forge.first / PERIOD;
        s.asked.push(json!([period as i64 - first as i64, count]));
        let us: Vec<Value> = s.op["us"].as_array().expect("driver: updates").iter().skip(s.at).take(count as usize).cloned().collect();
        s.at += us.len();
        Ok(us
            .into_iter()
            .map(|u| {
                let m = s.forge.make(&u);
                s.served.push(u);
                LightClientUpdateElectra {
                    attested_header: m.att,
                    next_sync_committee: m.next,
                    next_sync_committee_branch: FixedVector::from(m.next_branch),
                    finalized_header: m.fin,
                    finality_branch: FixedVector::from(m.fin_branch),
                    sync_aggregate: m.agg,
                    signature_slot: m.sig,
                }
            })
            .collect())
    }
    async fn get_finality_update(&self) -> Result<LightClientFinalityUpdateElectra> {
        let s = &mut *self.0.lock().unwrap();
        let u = s.op["f"].as_array().and_then(|f| f.first()).cloned().ok_or(anyhow!("none"))?;
        let m = s.forge.make(&u);
        s.served.push(u);
        Ok(LightClientFinalityUpdateElectra {
            attested_header: m.att,
            finalized_header: m.fin,
            finality_branch: FixedVector::from(m.fin_branch),
            sync_aggregate: m.agg,
            signature_slot: m.sig,
        })
    }
    async fn get_optimistic_update(&self) -> Result<LightClientOptimisticUpdateElectra> {
        let s = &mut *self.0.lock().unwrap();
        let u = s.op["o"].as_array().and_then(|o| o.first()).cloned().ok_or(anyhow!("none"))?;
        let m = s.forge.make(&u);
        s.served.push(u);
        Ok(LightClientOptimisticUpdateElectra { attested_header: m.att, sync_aggregate: m.agg, signature_slot: m.sig })
    }
    async fn chain_id(&self) -> Result<u64> {
        Ok(1)
    }
    fn name(&self) -> String {
        text(&self.0.lock().unwrap().cfg, "name").to_string()
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let base = networks::mainnet();
    let mut cfg = p["cfg"].clone();
    let now = expected_current_slot();
    let mut forge = Forge { first: (now / PERIOD - 4) * PERIOD, coms: HashMap::new(), heads: HashMap::new(), genesis: base.chain.genesis_root };
    let rel = |f: &Forge| expected_current_slot() as i64 - f.first as i64;
    let root = forge.checkpoint(&cfg).0.tree_hash_root();
    let rel_now = rel(&forge);
    // in slots, counted from what the clock says now
    cfg["limit"] = json!(rel_now - int(&cfg, "slot") + int(&cfg, "age"));
    let rpc = Rpc(Arc::new(Mutex::new(Script { forge, cfg: cfg.clone(), op: Value::Null, at: 0, served: vec![], asked: vec![] })));
    let limit = int(&cfg, "limit");
    let config = Config { strict_checkpoint_age: int(&cfg, "strict") == 1, max_checkpoint_age: (limit * 12) as u64, chain: base.chain, forks: base.forks, ..Default::default() };
    let mut client = ConsensusLightClient::with_custom_rpc(rpc.clone(), root, Arc::new(config));
    let watch = client.get_watch_receivers();
    let mut ev = vec![];
    for o in p["ops"].as_array().expect("driver: ops") {
        let before = {
            let s = &mut *rpc.0.lock().unwrap();
            let before = rel(&s.forge);
            s.op = o.clone();
            // slots close to the wall clock
            for u in ["us", "f", "o"] {
                for u in s.op[u].as_array_mut().expect("driver: updates") {
                    if int(u, "near") > 0 {
                        u["sig"] = json!(before + int(u, "near") - 5);
                        u["att"] = json!(before + int(u, "near") - 6);
                    }
                }
            }
            s.at = 0;
            s.served.clear();
            s.asked.clear();
            before
        };
        let r = guarded(|| block_on(async { if text(o, "op") == "sync" { client.sync().await } else { client.advance().await } }));
        let s = &mut *rpc.0.lock().unwrap_or_else(|e| e.into_inner());
        let ok = match r {
            Ok(r) => r.is_ok(),
            Err(m) => {
                ev.push(panic_event(text(o, "op"), &m));
                break;
            }
        };
        let st = client.get_light_client_store();
        let next = match &st.next_sync_committee {
            Some(c) => s.forge.com_name(c),
            None => 0,
        };
        let cur = s.forge.com_name(&st.current_sync_committee);
        let tell = s.forge.told(&watch);
        ev.push(json!({"e": o["op"], "ok": ok, "asked": s.asked, "tell": tell, "boot": o["boot"], "served": s.served, "now": [before, rel(&s.forge)],
                       "fin": s.forge.named(&st.finalized_header), "opt": s.forge.named(&st.optimistic_header), "cur": cur, "next": next}));
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}
