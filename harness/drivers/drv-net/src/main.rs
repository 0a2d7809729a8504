//! Runs programs on the real overlay network code and records what happened.
mod direct;
mod events;
mod gossip;
mod offers;
mod query;
mod seek;
mod table;
mod world;

fn main() {
    common::run(|i, p| match common::text(&p, "mode") {
        "direct" => vec![direct::run(i, &p)],
        "query" => vec![query::run(i, &p)],
        "gossip" => vec![gossip::run(i, &p)],
        "events" => vec![events::run(i, &p)],
        "table" => vec![table::run(i, &p)],
        "seek" => vec![seek::run(i, &p)],
        "offers" => vec![offers::run(i, &p)],
        m => panic!("driver: unknown mode {m}"),
    });
}
