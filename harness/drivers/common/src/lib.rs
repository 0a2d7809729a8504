//! What every driver shares: programs in, traces out, and panics turned into events.
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    io::{BufRead, BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keeps panic messages instead of printing them.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if std::env::var_os("SHOW_PANICS").is_some() {
            eprintln!("{s}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let said = LAST_PANIC.with(|l| l.borrow().clone());
        if said.is_empty() {
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        } else {
            said
        }
    })
}

/// The event that stands for a panic of the code under test.
pub fn panic_event(what: &str, msg: &str) -> Value {
    json!({"e": "panic", "during": what, "msg": msg})
}

/// Reads one program per line from the file given as first argument, writes one trace per line to
/// the second.
pub fn run(mut f: impl FnMut(usize, Value) -> Vec<Value>) {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("programs"));
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).expect("traces"));
    for (i, line) in input.lines().enumerate() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let p: Value = serde_json::from_str(&line).expect("program");
        for t in f(i, p) {
            writeln!(out, "{t}").expect("write");
        }
    }
    out.flush().expect("flush");
}

pub fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("driver: field {k} missing in {v}"))
}
pub fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("driver: field {k} missing in {v}"))
}

/// xorshift, for choices that come from a seed in the program.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
/// What a panic in some task said, if there was one since the last call.
pub fn take_panic() -> Option<String> {
    let s = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
    (!s.is_empty()).then_some(s)
}
