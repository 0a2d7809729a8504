//! Entries written, damaged and read again, in memory and as a stream.
use crate::bytes;
use common::*;
use e2store::e2store::{
    memory::E2StoreMemory,
    stream::{E2StoreStreamReader, E2StoreStreamWriter},
    types::Entry,
};
use serde_json::{json, Value};
use std::io::{BufReader, Cursor};

fn entry(e: &Entry) -> Value {
    let t = e.header.type_.to_be_bytes();
    json!([t[0], t[1], e.value])
}
/// The file that a stream of entries has become once it was flushed, its writer still being there.
fn streamed(es: &[Entry]) -> Vec<u8> {
    let dir = tempfile::tempdir().expect("driver: directory");
    let path = dir.path().join("file");
    let mut w = E2StoreStreamWriter::create(&path).expect("driver: writer");
    for e in es {
        if w.append_entry(e).is_err() {
            break;
        }
    }
    let _ = w.flush();
    std::fs::read(&path).expect("driver: read")
}
/// Entries too large to be spelt out: per entry its type, its size, and whether every byte is right.
fn big(o: &Value) -> Value {
    let sizes: Vec<usize> = o["sizes"].as_array().expect("driver: sizes").iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let es: Vec<Entry> = sizes.iter().enumerate().map(|(i, n)| Entry::new(i as u16 * 257 + 1, vec![i as u8 + 1; *n])).collect();
    let told = |es: &[Entry]| {
        es.iter().enumerate().map(|(i, e)| json!([e.header.type_, e.value.len(), e.value.iter().all(|b| *b == i as u8 + 1)])).collect::<Vec<_>>()
    };
    let mem: Vec<u8> = E2StoreMemory { entries: es.clone() }.try_into().unwrap_or_default();
    let stm = streamed(&es);
    let mut reader = E2StoreStreamReader::new(BufReader::new(Cursor::new(mem.clone()))).expect("driver: reader");
    let mut got = vec![];
    while let Ok(e) = reader.next_entry() {
        got.push(e);
        if got.len() > es.len() {
            break;
        }
    }
    json!({
        "e": "big", "sizes": sizes, "same": mem == stm, "size": mem.len(),
        "mem": told(&E2StoreMemory::deserialize(&mem).map(|m| m.entries).unwrap_or_default()), "stm": told(&got),
    })
}
pub fn call(o: &Value) -> Value {
    if text(o, "op") == "big" {
        return big(o);
    }
    let es: Vec<Entry> = o["es"]
        .as_array()
        .expect("driver: entries")
        .iter()
        .map(|e| Entry::new(u16::from_be_bytes([e[0].as_i64().unwrap() as u8, e[1].as_i64().unwrap() as u8]), bytes(&e[2])))
        .collect();
    let size: usize = es.iter().map(|e| e.length()).sum();
    let mem: Vec<u8> = E2StoreMemory { entries: es.clone() }.try_into().unwrap_or_default();
    let stm = streamed(&es);

    let mut raw = mem.clone();
    for d in o["edits"].as_array().expect("driver: edits") {
        let (at, v) = (d[1].as_i64().unwrap() as usize, d[2].as_i64().unwrap() as u8);
        match d[0].as_str().unwrap() {
            "cut" => raw.truncate(raw.len().saturating_sub(at)),
            "set" if !raw.is_empty() => {
                let n = raw.len();
                raw[at % n] = v;
            }
            "add" => raw.extend(vec![v; at]),
            _ => {}
        }
    }
    let whole = E2StoreMemory::deserialize(&raw);
    let single = Entry::deserialize(&raw);
    let mut reader = E2StoreStreamReader::new(BufReader::new(Cursor::new(raw.clone()))).expect("driver: reader");
    let mut got = vec![];
    while let Ok(e) = reader.next_entry() {
        got.push(entry(&e));
        if got.len() > raw.len() {
            break;
        }
    }
    json!({
        "e": "file", "es": o["es"], "size": size, "mem": mem, "stm": stm, "raw": raw,
        "ok": whole.is_ok(), "got": whole.map(|m| m.entries.iter().map(entry).collect::<Vec<_>>()).unwrap_or_default(),
        "streamed": got, "one": single.map(|e| vec![entry(&e)]).unwrap_or_default(),
    })
}
