use crate::ints;
use common::*;
use serde_json::{json, Value};
use std::str::FromStr;

#[path = "/repo/bin/portal-bridge/src/types/mode.rs"]
mod mode;
#[path = "/repo/bin/portal-bridge/src/types/range.rs"]
mod range;

const EPOCH: u64 = 8192;

pub fn call(o: &Value) -> Value {
    let base: u64 = match int(o, "base") {
        999999 => u64::MAX / EPOCH - 4,
        b => b as u64,
    };
    let block = |k: &str| {
        let b = ints(&o[k]);
        (base + b[0] as u64) * EPOCH + b[1] as u64
    };
    let rel = |b: u64| json!([(b / EPOCH) as i64 - base as i64, b % EPOCH]);
    match text(o, "op") {
        "split" => {
            let mut pieces = vec![];
            for (e, p) in range::block_range_to_epochs(block("a"), block("b")) {
                let (s, t) = p.unwrap_or((base * EPOCH, base * EPOCH));
                pieces.push(json!({"e": e as i64 - base as i64, "whole": p.is_none(), "s": rel(s), "t": rel(t)}));
            }
            json!({"e": "split", "a": o["a"], "b": o["b"], "pieces": pieces})
        }
        how => {
            let (s, want) = match how {
                "range" => (
                    format!("single:r{}-{}", block("a"), block("b")),
                    Some(mode::BridgeMode::Single(mode::ModeType::BlockRange(block("a"), block("b")))),
                ),
                "snapshot" => (format!("snapshot:{}", block("a")), Some(mode::BridgeMode::Snapshot(block("a")))),
                _ => (text(o, "text").to_string(), None),
            };
            let r = mode::BridgeMode::from_str(&s);
            json!({"e": "request", "how": how, "a": o["a"], "b": o["b"], "text": s, "ok": r.is_ok(), "same": r.ok() == want && want.is_some()})
        }
    }
}
