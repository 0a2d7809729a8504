//! Archives of blocks and of state.
use alloy::{
    consensus::{BlockBody as Body, Header},
    primitives::{keccak256, B256, U256},
};
use common::*;
use e2store::{
    e2hs::{BlockTuple, E2HSBlockIndexEntry, E2HSMemory, E2HSWriter, HeaderWithProofEntry},
    e2ss::{AccountEntry, AccountOrStorageEntry, E2SSReader, E2SSWriter, StorageEntry, StorageItem},
    e2store::{
        memory::E2StoreMemory,
        stream::E2StoreStreamWriter,
        types::{Entry, Header as Head, VersionEntry},
    },
    entry_types,
    era1::{self, BlockIndex, BodyEntry, Era1, ReceiptsEntry},
    types::HeaderEntry,
};
use ethportal_api::types::{
    execution::{
        block_body::BlockBody,
        header_with_proof::{BlockHeaderProof, BlockProofHistoricalHashesAccumulator, HeaderWithProof},
        receipts::Receipts,
    },
    state_trie::account_state::AccountState,
};
use serde_json::{json, Value};

fn head(number: u64) -> Header {
    Header { number, gas_used: number * 7, extra_data: vec![1u8; (number % 5) as usize].into(), ..Default::default() }
}
fn block(number: u64) -> BlockTuple {
    let proof = BlockHeaderProof::HistoricalHashes(BlockProofHistoricalHashesAccumulator::from((0..15).map(|i| keccak256([i, number as u8])).collect::<Vec<_>>()));
    let ommers = (0..number % 3).map(|k| head(number * 10 + k)).collect();
    BlockTuple {
        header_with_proof: HeaderWithProofEntry { header_with_proof: HeaderWithProof { header: head(number), proof } },
        body: BodyEntry { body: BlockBody(Body { ommers, ..Default::default() }) },
        receipts: ReceiptsEntry { receipts: Receipts(vec![]) },
    }
}
/// What a list of blocks starting at a number comes to: how many of them, in order, are the right ones.
fn right(start: u64, got: &[BlockTuple]) -> usize {
    got.iter().enumerate().take_while(|(i, b)| **b == block(start + *i as u64)).count()
}

fn history(o: &Value) -> Value {
    let (epoch, n, how) = (int(o, "epoch") as u64, int(o, "n") as u64, text(o, "how"));
    let start = epoch * 8192;
    let dir = tempfile::tempdir().expect("driver: directory");
    let mut e = json!({"e": "history", "epoch": epoch, "n": n, "how": how});
    let raw = if how == "memory" {
        let mut at = 8;
        let mut indices = vec![];
        let blocks: Vec<BlockTuple> = (0..n).map(|i| block(start + i)).collect();
        for b in &blocks {
            indices.push(at);
            at += <[Entry; 3]>::try_from(b).expect("driver: entries").iter().map(|x| x.length() as u64).sum::<u64>();
        }
        let index = E2HSBlockIndexEntry::new(BlockIndex { starting_number: start, indices, count: n });
        E2HSMemory { version: Default::default(), block_tuples: blocks, block_index: index }.write().ok()
    } else {
        let mut w = E2HSWriter::create(dir.path(), epoch).expect("driver: create");
        for i in 0..n {
            w.append_block_tuple(&block(start + i)).expect("driver: append");
        }
        let temp = w.temp_path().to_path_buf();
        let done = w.finish();
        e["left"] = json!(temp.exists());
        match done {
            Ok(p) => {
                let want = format!("{:x}", head(start + n - 1).hash_slow());
                e["named"] = json!(p.file_name().is_some_and(|f| f.to_string_lossy().contains(&want[..8]) && f.to_string_lossy().contains(&format!("{epoch:05}"))));
                std::fs::read(p).ok()
            }
            Err(_) => None,
        }
    };
    e["ok"] = json!(raw.is_some());
    let Some(raw) = raw else { return e };
    let file = E2StoreMemory::deserialize(&raw).expect("the archive can be read");
    let index = E2HSBlockIndexEntry::try_from(file.entries.last().expect("an entry")).expect("the index can be read").block_index;
    let heads = (0..8192usize)
        .take_while(|i| {
            let at = index.indices[*i] as usize;
            let Some(h) = raw.get(at..at + 8).and_then(|b| Head::deserialize(b).ok()) else { return false };
            let value = raw[at + 8..at + 8 + h.length as usize].to_vec();
            let entry = Entry::new(h.type_, value);
            HeaderWithProofEntry::try_from(&entry).is_ok_and(|x| x.header_with_proof.header.number == start + *i as u64)
        })
        .count();
    e["starts"] = json!(index.starting_number == start);
    e["count"] = json!(index.count);
    e["indices"] = json!(index.indices.len());
    e["heads"] = json!(heads);
    let whole = E2HSMemory::deserialize(&raw);
    e["read"] = json!(whole.as_ref().map(|m| m.block_tuples.len()).unwrap_or(0));
    e["right"] = json!(whole.as_ref().map(|m| right(start, &m.block_tuples)).unwrap_or(0));
    e["number"] = json!(whole.as_ref().is_ok_and(|m| m.index() == epoch));
    e["again"] = json!(whole.and_then(|m| m.write()).is_ok_and(|b| b == raw));
    let one: Vec<BlockTuple> = E2HSMemory::iter_tuples(&raw).map(|i| i.collect()).unwrap_or_default();
    e["one"] = json!(one.len());
    e["oneright"] = json!(right(start, &one));
    e
}

/// A file of blocks with a matching index, put together entry by entry: is it taken for an archive?
fn composed(o: &Value) -> Value {
    let (epoch, n, old) = (int(o, "epoch") as u64, int(o, "n") as u64, text(o, "how") == "composed old");
    let start = epoch * 8192;
    let mut entries = vec![Entry::from(&VersionEntry::default())];
    let (mut at, mut indices) = (8, vec![]);
    for i in 0..n {
        indices.push(at);
        let block: Vec<Entry> = match old {
            true => <[Entry; 4]>::try_from(&old_block(start + i)).expect("driver: entries").into(),
            _ => <[Entry; 3]>::try_from(&block(start + i)).expect("driver: entries").into(),
        };
        at += block.iter().map(|x| x.length() as u64).sum::<u64>();
        entries.extend(block);
    }
    let block_index = BlockIndex { starting_number: start, indices, count: n };
    if old {
        entries.push(Entry::new(entry_types::ACCUMULATOR, keccak256([epoch as u8]).to_vec()));
        entries.push(Entry::from(&era1::Era1BlockIndexEntry { block_index }));
    } else {
        entries.push(Entry::from(&E2HSBlockIndexEntry::new(block_index)));
    }
    let raw: Vec<u8> = E2StoreMemory { entries }.try_into().expect("driver: file");
    let read = if old { Era1::deserialize(&raw).map(|f| f.block_tuples.len()) } else { E2HSMemory::deserialize(&raw).map(|f| f.block_tuples.len()) };
    json!({"e": "composed", "epoch": epoch, "n": n, "how": text(o, "how"), "ok": read.is_ok(), "read": read.unwrap_or(0)})
}

fn old_block(number: u64) -> era1::BlockTuple {
    let b = block(number);
    let sum = Entry::new(entry_types::TOTAL_DIFFICULTY, U256::from(number * number + 3).to_be_bytes::<32>().to_vec());
    era1::BlockTuple {
        header: HeaderEntry { header: head(number) },
        body: b.body,
        receipts: b.receipts,
        total_difficulty: (&sum).try_into().expect("driver: difficulty"),
    }
}
/// The older format: every block carries the difficulty so far, the file an accumulator.
fn old_history(o: &Value) -> Value {
    let (epoch, n) = (int(o, "epoch") as u64, int(o, "n") as u64);
    let start = epoch * 8192;
    let blocks: Vec<_> = (0..n).map(|i| old_block(start + i)).collect();
    let mut at = 8;
    let mut indices = vec![];
    for b in &blocks {
        indices.push(at);
        at += <[Entry; 4]>::try_from(b).expect("driver: entries").iter().map(|x| x.length() as u64).sum::<u64>();
    }
    let sum = Entry::new(entry_types::ACCUMULATOR, keccak256([epoch as u8]).to_vec());
    let block_index = era1::Era1BlockIndexEntry { block_index: BlockIndex { starting_number: start, indices: indices.clone(), count: n } };
    let file = Era1 { version: Default::default(), block_tuples: blocks.clone(), accumulator: (&sum).try_into().expect("driver: accumulator"), block_index };
    let mut e = json!({"e": "old", "epoch": epoch, "n": n});
    let raw = file.write();
    e["ok"] = json!(raw.is_ok());
    let Ok(raw) = raw else { return e };
    let whole = Era1::deserialize(&raw);
    e["same"] = json!(whole.as_ref().is_ok_and(|w| {
        let i = &w.block_index.block_index;
        w.block_tuples == blocks && w.accumulator == file.accumulator && i.indices == indices && i.count == n && i.starting_number == start
    }));
    e["number"] = json!(whole.as_ref().is_ok_and(|w| w.epoch_number() == epoch));
    e["again"] = json!(whole.and_then(|m| m.write()).is_ok_and(|b| b == raw));
    e["one"] = json!(Era1::iter_tuples(&raw).is_ok_and(|i| i.collect::<Vec<_>>() == blocks));
    e
}

fn item(k: i64) -> StorageItem {
    StorageItem { storage_index_hash: keccak256([k as u8]), value: U256::from(k) }
}
fn told(e: &AccountOrStorageEntry) -> Value {
    match e {
        AccountOrStorageEntry::Account(a) => {
            let code = a.bytecode.len() as i64;
            let id = a.account_state.nonce as i64;
            let same = *a == account(id, code, a.storage_count as i64);
            json!(["account", id, code, a.storage_count, same])
        }
        AccountOrStorageEntry::Storage(s) => {
            let same = s.iter().enumerate().all(|(i, x)| *x == item(i as i64));
            json!(["storage", 0, s.len(), 0, same])
        }
    }
}
fn account(id: i64, code: i64, count: i64) -> AccountEntry {
    AccountEntry {
        address_hash: keccak256([id as u8]),
        account_state: AccountState { nonce: id as u64, balance: U256::from(id * 1000), storage_root: B256::repeat_byte(id as u8), code_hash: keccak256([id as u8, 1]) },
        bytecode: vec![id as u8; code as usize],
        storage_count: count as u32,
    }
}
fn snapshot(o: &Value) -> Value {
    let dir = tempfile::tempdir().expect("driver: directory");
    let mut w = E2SSWriter::create(dir.path(), head(int(o, "number") as u64)).expect("driver: create");
    let ok: Vec<bool> = o["puts"]
        .as_array()
        .expect("driver: entries")
        .iter()
        .map(|p| {
            let n = |i: usize| p[i].as_i64().unwrap();
            let x = match p[0].as_str().unwrap() {
                "account" => AccountOrStorageEntry::Account(account(n(1), n(2), n(3))),
                _ => AccountOrStorageEntry::Storage(StorageEntry((0..n(2)).map(item).collect())),
            };
            w.append_entry(&x).is_ok()
        })
        .collect();
    w.flush().expect("driver: flush");
    let path = w.path().to_path_buf();
    drop(w);
    let again = E2SSWriter::create(dir.path(), head(int(o, "number") as u64)).is_ok();
    let mut r = E2SSReader::open(&path).expect("the snapshot can be opened");
    let headed = r.header.header == head(int(o, "number") as u64);
    let mut got = vec![];
    let finished = guarded(|| {
        for x in r.by_ref() {
            got.push(told(&x));
        }
    })
    .is_ok();
    json!({"e": "snapshot", "puts": o["puts"], "ok": ok, "again": again, "headed": headed, "got": got, "finished": finished})
}
/// A snapshot put together entry by entry, whose storage entries are not as full as a writer demands.
fn loose(o: &Value) -> Value {
    let dir = tempfile::tempdir().expect("driver: directory");
    let path = dir.path().join("file.e2ss");
    let mut w = E2StoreStreamWriter::create(&path).expect("driver: writer");
    let header = HeaderEntry { header: head(int(o, "number") as u64) };
    w.append_entry(&Entry::from(&VersionEntry::default())).expect("driver: version");
    w.append_entry(&Entry::try_from(&header).expect("driver: header")).expect("driver: header");
    for p in o["puts"].as_array().expect("driver: entries") {
        let n = |i: usize| p[i].as_i64().unwrap();
        let x: Entry = match p[0].as_str().unwrap() {
            "account" => account(n(1), n(2), n(3)).try_into().expect("driver: entry"),
            _ => StorageEntry((0..n(2)).map(item).collect()).try_into().expect("driver: entry"),
        };
        w.append_entry(&x).expect("driver: entry");
    }
    w.flush().expect("driver: flush");
    let mut r = E2SSReader::open(&path).expect("the snapshot can be opened");
    let mut got = vec![];
    let finished = guarded(|| {
        for x in r.by_ref() {
            got.push(told(&x));
        }
    })
    .is_ok();
    json!({"e": "loose", "puts": o["puts"], "got": got, "finished": finished})
}
pub fn call(o: &Value) -> Value {
    match text(o, "op") {
        "history" if text(o, "how").starts_with("composed") => composed(o),
        "loose" => loose(o),
        "history" if text(o, "how") == "old" => old_history(o),
        "history" => history(o),
        _ => snapshot(o),
    }
}
