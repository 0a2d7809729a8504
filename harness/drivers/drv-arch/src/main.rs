//! Runs programs on the archive formats.
mod archive;
mod vault;

use common::*;
use serde_json::{json, Value};

fn main() {
    run(|i, p| {
        let f: fn(&Value) -> Value = match text(&p, "mode") {
            "archive" => archive::call,
            "vault" => vault::call,
            m => panic!("driver: unknown mode {m}"),
        };
        let ev: Vec<Value> = p["ops"]
            .as_array()
            .expect("driver: ops")
            .iter()
            .map(|o| {
                guarded(|| f(o)).unwrap_or_else(|m| {
                    let mut e = panic_event("call", &m);
                    e["input"] = o.to_string().into();
                    e
                })
            })
            .collect();
        vec![json!({"id": i, "cfg": {}, "ev": ev})]
    });
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("driver: bytes").iter().map(|x| x.as_i64().expect("driver: byte") as u8).collect()
}
