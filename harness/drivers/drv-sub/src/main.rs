//! Runs programs on the light client and on the storages and validators of the sub-networks.
mod beacon;
mod blocks;
mod bvalid;
mod cells;
mod light;
mod trie;
mod wants;

use common::*;

fn main() {
    run(|i, p| match text(&p, "mode") {
        "beacon" => vec![beacon::run(i, &p)],
        "blocks" => vec![blocks::run(i, &p)],
        "bvalid" => vec![bvalid::run(i, &p)],
        "cells" => vec![cells::run(i, &p)],
        "light" => vec![light::run(i, &p)],
        "trie" => vec![trie::run(i, &p)],
        "wants" => vec![wants::run(i, &p)],
        m => panic!("driver: unknown mode {m}"),
    });
}

pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("driver: runtime").block_on(f)
}
