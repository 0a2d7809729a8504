//! One node or content lookup, driven by hand.  Peers are named by their rank.
use common::*;
use crossbeam_channel::Sender;
use discv5::{enr::NodeId, kbucket::Key};
use ethportal_api::RawContentValue;
use portalnet::find::{
    iterators::{
        findcontent::{
            FindContentQuery, FindContentQueryPending, FindContentQueryResponse, FindContentQueryResult, ValidatedContent,
        },
        findnodes::FindNodeQuery,
        query::{Query, QueryConfig},
    },
    query_pool::QueryState,
};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

const TARGET: [u8; 32] = [0x3c; 32];
const UNIT: Duration = Duration::from_secs(1);

/// Distances grow with the rank but neither evenly nor in one byte.
fn peer(rank: i64) -> NodeId {
    let mut id = TARGET;
    id[(31 - rank) as usize] ^= 0x80 | rank as u8;
    id[31] ^= (rank * 37) as u8 & 0x3f;
    NodeId::new(&id)
}
fn rank(id: &NodeId) -> i64 {
    (1..=20).find(|r| peer(*r) == *id).unwrap_or(0)
}
fn content(rank: i64) -> RawContentValue {
    vec![rank as u8; 3 + rank as usize].into()
}
fn cid(rank: i64) -> u16 {
    1000 + rank as u16
}

enum Lookup {
    Node(FindNodeQuery<NodeId>),
    Content(FindContentQuery<NodeId>),
}
use Lookup::*;

struct Pending {
    rank: i64,
    tx: Sender<Option<ValidatedContent<NodeId>>>,
    utp: bool,
}

pub fn run(id: usize, p: &Value) -> Value {
    let ops = p["ops"].as_array().expect("driver: ops");
    let c = &ops[0]["c"];
    let node = text(c, "kind") == "node";
    let ttl = int(c, "ttl");
    let cfg = QueryConfig {
        parallelism: int(c, "par") as usize,
        num_results: int(c, "num") as usize,
        peer_timeout: UNIT * ttl as u32,
        overall_timeout: Duration::from_secs(1_000_000),
    };
    let start: Vec<i64> = ops[0]["start"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let target: Key<NodeId> = NodeId::new(&TARGET).into();
    let known = start.iter().map(|r| Key::from(peer(*r))).collect::<Vec<_>>();
    let mut q = if node {
        Node(FindNodeQuery::with_config(cfg, target, known))
    } else {
        Content(FindContentQuery::with_config(cfg, target, known))
    };
    let cfg = json!({"kind": c["kind"], "par": c["par"], "num": c["num"], "ttl": ttl, "start": start});
    let mut ev: Vec<Value> = vec![];
    let t0 = Instant::now();
    let mut now = 0i64;
    let mut pending: Option<Pending> = None;
    let mut finished = false;

    let mut todo: Vec<Value> = ops[1..].to_vec();
    // Afterwards nobody answers any more, and the lookup has to come to an end.
    for _ in 0..60 {
        todo.push(json!({"op": "verdict", "ok": false}));
        todo.push(json!({"op": "tick", "by": ttl}));
        todo.push(json!({"op": "poll", "drain": true}));
    }
    todo.push(json!({"op": "late"}));
    let r = guarded(|| {
        for o in &todo {
            match text(o, "op") {
                "tick" => {
                    if finished {
                        continue;
                    }
                    let by = o["by"].as_i64().unwrap_or(1);
                    now += by;
                    ev.push(json!({"e": "tick", "by": by}));
                }
                "nodes" => {
                    let names: Vec<i64> = o["names"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                    let from = peer(int(o, "p"));
                    let list = names.iter().map(|r| peer(*r)).collect();
                    match &mut q {
                        Node(q) => q.on_success(&from, list),
                        Content(q) => q.on_success(&from, FindContentQueryResponse::ClosestNodes(list)),
                    }
                    ev.push(json!({"e": "nodes", "p": o["p"], "names": names}));
                }
                "content" => {
                    let r = int(o, "p");
                    if let Content(q) = &mut q {
                        let resp = if r % 2 == 0 {
                            FindContentQueryResponse::Content(content(r))
                        } else {
                            FindContentQueryResponse::ConnectionId(cid(r))
                        };
                        q.on_success(&peer(r), resp);
                        ev.push(json!({"e": "content", "p": r}));
                    }
                }
                "fail" => {
                    let from = peer(int(o, "p"));
                    match &mut q {
                        Node(q) => q.on_failure(&from),
                        Content(q) => q.on_failure(&from),
                    }
                    ev.push(json!({"e": "fail", "p": o["p"]}));
                }
                "verdict" => {
                    let ok = o["ok"].as_bool().unwrap();
                    if let Some(w) = pending.take() {
                        let v = ok.then(|| ValidatedContent {
                            content: content(w.rank),
                            was_utp_transfer: w.utp,
                            sending_peer: peer(w.rank),
                        });
                        w.tx.send(v).expect("driver: verdict channel");
                        ev.push(json!({"e": "verdict", "p": w.rank, "ok": ok}));
                    }
                }
                "poll" => {
                    if finished && o["drain"].is_boolean() {
                        continue;
                    }
                    let t = t0 + UNIT * now as u32;
                    let s = match &mut q {
                        Node(q) => q.poll(t),
                        Content(q) => q.poll(t),
                    };
                    let mut e = json!({"e": "poll", "p": 0});
                    let out = match s {
                        QueryState::Waiting(Some(x)) => {
                            e["p"] = rank(&x).into();
                            "contact"
                        }
                        QueryState::Waiting(None) => "wait",
                        QueryState::WaitingAtCapacity => "capacity",
                        QueryState::Finished => "finished",
                        QueryState::Validating(x) => {
                            let r = rank(&x);
                            e["p"] = r.into();
                            let Content(q) = &mut q else { panic!("node lookup validates") };
                            let (src, same, poke, tx) = match q.pending_validation_result(x) {
                                FindContentQueryPending::PendingContent { content: c, nodes_to_poke, peer, valid_content_tx } => {
                                    (rank(&peer), r % 2 == 0 && c == content(r), nodes_to_poke, Some((valid_content_tx, false)))
                                }
                                FindContentQueryPending::Utp { connection_id, nodes_to_poke, peer, valid_content_tx } => {
                                    (rank(&peer), r % 2 == 1 && connection_id == cid(r), nodes_to_poke, Some((valid_content_tx, true)))
                                }
                                FindContentQueryPending::NonePending => (0, false, vec![], None),
                            };
                            e["src"] = src.into();
                            e["same"] = same.into();
                            e["poke"] = poke.iter().map(rank).collect::<Vec<_>>().into();
                            if let Some((tx, utp)) = tx {
                                pending = Some(Pending { rank: r, tx, utp });
                            }
                            "validate"
                        }
                    };
                    e["out"] = out.into();
                    ev.push(e);
                    if out == "finished" && !finished {
                        finished = true;
                        ev.push(end(&q));
                    }
                }
                // Answers that come after the end change nothing.
                "late" if finished => {
                    for r in 1..=6 {
                        match &mut q {
                            Node(q) => q.on_success(&peer(r), vec![peer(1), peer(13)]),
                            Content(q) => q.on_success(&peer(r), FindContentQueryResponse::Content(content(r))),
                        }
                        ev.push(json!({"e": "nodes", "p": r, "names": [1, 13]}));
                    }
                    ev.push(end(&q));
                }
                _ => {}
            }
        }
    });
    if let Err(m) = r {
        ev.push(panic_event("lookup", &m));
    } else if !finished {
        ev.push(json!({"e": "endless"}));
    }
    json!({"id": id, "cfg": cfg, "ev": ev})
}

fn end(q: &Lookup) -> Value {
    let (res, cancelled, same) = match q {
        Node(q) => (q.clone().into_result().iter().map(rank).collect(), vec![], true),
        Content(q) => match q.clone().into_result() {
            FindContentQueryResult::NoneFound => (vec![], vec![], true),
            FindContentQueryResult::ValidContent(v, c) => {
                let r = rank(&v.sending_peer);
                (vec![r], c.iter().map(rank).collect(), v.content == content(r) && v.was_utp_transfer == (r % 2 == 1))
            }
        },
    };
    json!({"e": "end", "res": res, "cancelled": cancelled, "same": same})
}
