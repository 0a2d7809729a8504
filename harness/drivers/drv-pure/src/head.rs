//! The followed chain head, fed with updates one by one and from several threads at once.
use alloy::primitives::B256;
use common::*;
use ethportal_api::{
    consensus::{
        body::SyncAggregate,
        header::BeaconBlockHeader,
        historical_summaries::{HistoricalSummaries, HistoricalSummary},
    },
    light_client::{finality_update::*, header::*, optimistic_update::*, update::*},
};
use serde_json::{json, Value};
use ssz_types::{BitVector, FixedVector};
use std::sync::{atomic::{AtomicUsize, Ordering}, Barrier};
use trin_validation::chain_head::ChainHead;

const CAPELLA: u64 = 6209536;
const PERIOD: u64 = 8192;

fn beacon(base: u64, off: i64, tag: i64) -> BeaconBlockHeader {
    BeaconBlockHeader { slot: (base as i64 + off) as u64, proposer_index: tag as u64, ..Default::default() }
}
fn aggregate() -> SyncAggregate {
    SyncAggregate { sync_committee_bits: BitVector::new(), sync_committee_signature: Default::default() }
}

macro_rules! updates {
    ($fork:ident, $head:ident, $u:ident, $o:ident, $f:ident, $att:expr, $fin:expr, $what:expr, $h:expr) => {{
        let a = $head { beacon: $att, ..Default::default() };
        let f = $head { beacon: $fin, ..Default::default() };
        let signature_slot = a.beacon.slot + 1;
        match $what {
            "update" => $h.process_update(LightClientUpdate::$fork($u {
                attested_header: a,
                next_sync_committee: Default::default(),
                next_sync_committee_branch: FixedVector::from_elem(B256::ZERO),
                finalized_header: f,
                finality_branch: FixedVector::from_elem(B256::ZERO),
                sync_aggregate: aggregate(),
                signature_slot,
            })),
            "optimistic" => $h.process_optimistic_update(LightClientOptimisticUpdate::$fork($o {
                attested_header: a,
                sync_aggregate: aggregate(),
                signature_slot,
            })),
            _ => $h.process_finality_update(LightClientFinalityUpdate::$fork($f {
                attested_header: a,
                finalized_header: f,
                finality_branch: FixedVector::from_elem(B256::ZERO),
                sync_aggregate: aggregate(),
                signature_slot,
            })),
        }
    }};
}

fn summary(tag: i64, i: usize) -> HistoricalSummary {
    let mut b = B256::ZERO;
    b.0[0] = tag as u8;
    b.0[1..9].copy_from_slice(&(i as u64).to_be_bytes());
    HistoricalSummary { block_summary_root: b, state_summary_root: b }
}

struct World {
    head: ChainHead,
    first: BeaconBlockHeader,
    list: Vec<HistoricalSummary>,
}
impl World {
    fn feed(&self, o: &Value) {
        let base = self.first.slot;
        if text(o, "op") == "summaries" {
            let n = (self.list.len() as i64 + int(o, "len")).max(0) as usize;
            let l: Vec<_> = (0..n).map(|i| summary(int(o, "tag"), i)).collect();
            return self.head.update_historical_summaries(HistoricalSummaries::new(l).expect("driver: list"));
        }
        let (a, f) = (beacon(base, int(o, "att"), int(o, "tag")), beacon(base, int(o, "fin"), int(o, "tag")));
        match text(o, "fork") {
            "bellatrix" => updates!(Bellatrix, LightClientHeaderBellatrix, LightClientUpdateBellatrix, LightClientOptimisticUpdateBellatrix, LightClientFinalityUpdateBellatrix, a, f, text(o, "op"), self.head),
            "capella" => updates!(Capella, LightClientHeaderCapella, LightClientUpdateCapella, LightClientOptimisticUpdateCapella, LightClientFinalityUpdateCapella, a, f, text(o, "op"), self.head),
            "deneb" => updates!(Deneb, LightClientHeaderDeneb, LightClientUpdateDeneb, LightClientOptimisticUpdateDeneb, LightClientFinalityUpdateDeneb, a, f, text(o, "op"), self.head),
            _ => updates!(Electra, LightClientHeaderElectra, LightClientUpdateElectra, LightClientOptimisticUpdateElectra, LightClientFinalityUpdateElectra, a, f, text(o, "op"), self.head),
        }
    }
    fn name(&self, h: &BeaconBlockHeader) -> Value {
        let off = h.slot as i64 - self.first.slot as i64;
        if *h == self.first {
            return json!([off, 0]);
        }
        let tag = h.proposer_index as i64;
        json!([off, if *h == beacon(self.first.slot, off, tag) { tag } else { -1 }])
    }
    /// Which list the summary known for a period comes from: -1 none, -2 another period's.
    fn known(&self, i: usize, calm: bool) -> i64 {
        let s = CAPELLA + i as u64 * PERIOD;
        let (a, b) = (self.head.historical_summary(s), calm.then(|| self.head.historical_summary(s + PERIOD - 1)));
        match a {
            _ if b.is_some_and(|b| b != a) => -2,
            None => -1,
            Some(x) if self.list.get(i) == Some(&x) => 0,
            Some(x) if x == summary(x.block_summary_root.0[0] as i64, i) => x.block_summary_root.0[0] as i64,
            _ => -2,
        }
    }
    /// `calm`: nothing changes meanwhile.
    fn seen(&self, calm: bool) -> Value {
        let n = self.list.len() as i64;
        let probe: Vec<_> = (-4..7).map(|d| self.known((n + d) as usize, calm)).collect();
        json!({"latest": self.name(&self.head.latest_beacon_header()), "final": self.name(&self.head.finalized_beacon_header()),
               "sums": probe, "zero": self.known(0, calm), "before": self.head.historical_summary(CAPELLA - 1).is_some()})
    }
}

pub fn run(id: usize, p: &Value) -> Value {
    let mut ev = vec![];
    let head = ChainHead::new_pectra_defaults();
    let first = head.latest_beacon_header();
    let mut list = vec![];
    while let Some(s) = head.historical_summary(CAPELLA + list.len() as u64 * PERIOD) {
        list.push(s);
    }
    let w = World { head, first, list };
    let cfg = json!({"list": w.list.len()});
    for o in p["ops"].as_array().expect("driver: ops") {
        let mut e = o.clone();
        e["e"] = o["op"].clone();
        let r = if text(o, "op") == "burst" {
            let parts: Vec<&Value> = o["parts"].as_array().expect("driver: parts").iter().collect();
            let left = AtomicUsize::new(parts.len());
            let start = Barrier::new(parts.len() + 1);
            let mut seen = vec![];
            let r = guarded(|| {
                std::thread::scope(|s| {
                    for part in &parts {
                        let (w, left, start) = (&w, &left, &start);
                        s.spawn(move || {
                            start.wait();
                            for u in part.as_array().expect("driver: part") {
                                w.feed(u);
                            }
                            left.fetch_sub(1, Ordering::SeqCst);
                        });
                    }
                    start.wait();
                    loop {
                        let last = left.load(Ordering::SeqCst) == 0;
                        let now = w.seen(last);
                        if seen.last() != Some(&now) {
                            seen.push(now);
                        }
                        if last {
                            break;
                        }
                    }
                });
            });
            e["seen"] = seen.into();
            r
        } else {
            let r = guarded(|| w.feed(o));
            e["seen"] = json!([w.seen(true)]);
            r
        };
        match r {
            Ok(()) => ev.push(e),
            Err(m) => {
                ev.push(panic_event("update", &m));
                break;
            }
        }
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}
