//! Runs enumerated inputs through functions that keep no state, and Merkle trees.
mod head;
mod headers;
mod keys;
mod merkle;
mod messages;
mod ranges;
mod shares;
mod summaries;
mod versions;
mod wire;

use common::*;
use serde_json::{json, Value};

fn main() {
    run(|i, p| {
        match text(&p, "mode") {
            "merkle" => return vec![merkle::run(i, &p)],
            "messages" => return vec![messages::run(i, &p)],
            "head" => return vec![head::run(i, &p)],
            "summaries" => return vec![summaries::run(i, &p)],
            _ => {}
        }
        let f: fn(&Value) -> Value = match text(&p, "mode") {
            "wire" => wire::call,
            "keys" => keys::call,
            "versions" => versions::call,
            "shares" => shares::call,
            "headers" => headers::call,
            "ranges" => ranges::call,
            m => panic!("driver: unknown mode {m}"),
        };
        let ev: Vec<Value> = p["ops"]
            .as_array()
            .expect("driver: ops")
            .iter()
            .map(|o| guarded(|| f(o)).unwrap_or_else(|m| {
                let mut e = panic_event("call", &m);
                e["input"] = o.to_string().into();
                e
            }))
            .collect();
        vec![json!({"id": i, "cfg": {}, "ev": ev})]
    });
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().expect("driver: list").iter().map(|x| x.as_i64().expect("driver: number")).collect()
}

pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("driver: runtime").block_on(f)
}
