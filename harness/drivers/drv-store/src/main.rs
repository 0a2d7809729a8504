//! Runs programs of store operations on the real content stores and records what happened.
use alloy::primitives::{B256, U256};
use common::*;
use discv5::enr::NodeId;
use ethportal_api::{
    types::{
        content_key::overlay::{IdentityContentKey, OverlayContentKey},
        distance::{Distance, XorMetric},
        network::Subnetwork,
    },
    RawContentValue,
};
use serde_json::{json, Value};
use std::{collections::BTreeMap, path::Path, process::Command};
use trin_storage::{
    config::StorageCapacityConfig,
    error::ContentStoreError,
    versioned::{
        create_store, ContentType, EphemeralV1Store, EphemeralV1StoreConfig, IdIndexedV1Store, IdIndexedV1StoreConfig,
        StoreVersion, VersionedContentStore,
    },
    ContentId, PortalStorageConfig, PortalStorageConfigFactory,
};

const NODE: [u8; 32] = [0x5a; 32];
const MAXD: i64 = 2_000_000;
const SCALE: u64 = 429_496;
const BASE: i64 = 64;

/// Model distance -> distance: the high part fills the 32 bits that are stored, the low four bits
/// sit at the very end.
fn real(d: i64) -> U256 {
    if d >= MAXD {
        return U256::MAX;
    }
    let hi = (d as u64 / 16) * SCALE;
    (U256::from(hi) << 224) | U256::from(d as u64 % 16)
}
fn model(d: U256) -> i64 {
    if d == U256::MAX {
        return MAXD;
    }
    let hi: u64 = (d >> 224usize).to::<u64>();
    let lo: U256 = d & ((U256::from(1u64) << 224) - U256::from(1u64));
    if hi % SCALE != 0 || lo > U256::from(15u64) {
        return -1;
    }
    (hi / SCALE * 16) as i64 + lo.to::<u64>() as i64
}
fn key(node: &[u8; 32], d: i64) -> IdentityContentKey {
    let id = U256::from_be_bytes(*node) ^ real(d);
    IdentityContentKey::new(id.to_be_bytes::<32>())
}
fn value(n: i64, g: i64) -> RawContentValue {
    let mut v: Vec<u8> = (0..n as usize).map(|i| (i as u8).wrapping_mul(31) ^ g as u8).collect();
    if let Some(b) = v.first_mut() {
        *b = g as u8
    }
    v.into()
}
/// Name of a value: its length and tag, or something no program stores.
fn name(v: &[u8]) -> String {
    if v.is_empty() {
        return "0".into();
    }
    let g = v[0] as i64;
    if value(v.len() as i64, g).as_ref() == v {
        format!("{}:{g}", v.len())
    } else {
        format!("?{}", v.len())
    }
}

enum Store {
    Radius(IdIndexedV1Store<IdentityContentKey, XorMetric>),
    Plain(EphemeralV1Store<IdentityContentKey>),
}

/// Another store version on the same content type.
struct Other;
impl VersionedContentStore for Other {
    type Config = ();
    fn version() -> StoreVersion {
        StoreVersion::MockContentStore
    }
    fn migrate_from(_: &ContentType, o: StoreVersion, _: &()) -> Result<(), ContentStoreError> {
        Err(ContentStoreError::UnsupportedStoreMigration { old_version: o, new_version: Self::version() })
    }
    fn create(_: ContentType, _: ()) -> Result<Self, ContentStoreError> {
        Ok(Other)
    }
}

struct World {
    dir: std::path::PathBuf,
    ctype: ContentType,
    sub: Subnetwork,
    plain: bool,
    dist: Vec<i64>,
    store: Option<Store>,
    seen: BTreeMap<usize, (String, i64)>,
}

impl World {
    fn new(dir: &Path, init: &Value) -> Self {
        let plain = text(init, "kind") == "plain";
        let extra = if plain { 0 } else { int(init, "extra") };
        let (ctype, sub) = match extra {
            0 => (ContentType::LegacyHistoryEphemeral, Subnetwork::LegacyHistory),
            500 => (ContentType::State, Subnetwork::State),
            _ => (ContentType::LegacyHistoryEternal, Subnetwork::LegacyHistory),
        };
        let dist = init["dist"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        World { dir: dir.into(), ctype, sub, plain, dist, store: None, seen: Default::default() }
    }
    fn config(&self, cap: i64, max_r: i64, node: [u8; 32]) -> Result<PortalStorageConfig, ContentStoreError> {
        let f = PortalStorageConfigFactory::new(
            StorageCapacityConfig::Combined { total_mb: 0, subnetworks: vec![self.sub] },
            NodeId::from(node),
            self.dir.clone(),
        )?;
        let mut c = f.create(&self.sub, Distance::from(real(max_r)))?;
        c.storage_capacity_bytes = cap as u64;
        Ok(c)
    }
    fn open(&mut self, cap: i64, max_r: i64, node: [u8; 32]) -> Result<Store, ContentStoreError> {
        let c = self.config(cap, max_r, node)?;
        let pool = c.sql_connection_pool.clone();
        let t = self.ctype.clone();
        Ok(if self.plain {
            let c = EphemeralV1StoreConfig::new(t.clone(), self.sub, c);
            Store::Plain(create_store(t, c, pool)?)
        } else {
            let c = IdIndexedV1StoreConfig::new(t.clone(), self.sub, c);
            Store::Radius(create_store(t, c, pool)?)
        })
    }
    fn keyno(&self, k: &IdentityContentKey) -> i64 {
        (0..self.dist.len()).find(|i| &key(&NODE, self.dist[*i]) == k).map(|i| i as i64 + 1).unwrap_or(-1)
    }
    /// Everything the store says about itself; contents as the difference to the last look.
    fn observe(&mut self, ev: &mut Value) {
        let mut now = BTreeMap::new();
        let mut odd = vec![];
        match self.store.as_ref().unwrap() {
            Store::Radius(s) => {
                for (i, d) in self.dist.iter().enumerate() {
                    let k = key(&NODE, *d);
                    let id = ContentId::from(B256::from(k.content_id()));
                    let v = s.lookup_content_value(&id);
                    let has = s.has_content(&id);
                    let kk = s.lookup_content_key(&id);
                    look(i + 1, &k, v, has, kk, &mut now, &mut odd);
                }
                ev["radius"] = json!(model(U256::from_be_bytes(s.radius().to_be_bytes::<32>())));
                let u = s.usage_stats();
                ev["count"] = json!(u.entry_count());
                ev["bytes"] = json!(u.total_entry_size_bytes());
                ev["est"] = json!(u.estimated_disk_usage_bytes());
            }
            Store::Plain(s) => {
                for (i, d) in self.dist.iter().enumerate() {
                    let k = key(&NODE, *d);
                    let id = ContentId::from(B256::from(k.content_id()));
                    let v = s.lookup_content_value(&id);
                    let has = s.has_content(&id);
                    let kk = s.lookup_content_key(&id);
                    look(i + 1, &k, v, has, kk, &mut now, &mut odd);
                }
                ev["radius"] = json!(0);
                let u = s.usage_stats();
                ev["count"] = json!(u.entry_count());
                ev["bytes"] = json!(u.total_entry_size_bytes());
                ev["est"] = json!(u.estimated_disk_usage_bytes());
            }
        }
        for f in ["count", "bytes", "est"] {
            if ev[f].as_u64().unwrap_or(0) > 2_000_000_000 {
                ev[f] = json!(-1);
            }
        }
        self.diff(now, ev);
        ev["odd"] = json!(odd);
    }
    fn diff(&mut self, now: BTreeMap<usize, (String, i64)>, ev: &mut Value) {
        let del: Vec<usize> = self.seen.keys().filter(|k| !now.contains_key(k)).cloned().collect();
        let add: Vec<Value> = now
            .iter()
            .filter(|(k, v)| self.seen.get(k) != Some(v))
            .map(|(k, (v, n))| json!({"k": k, "v": v, "n": n}))
            .collect();
        ev["add"] = json!(add);
        ev["del"] = json!(del);
        self.seen = now;
    }
    fn insert(&mut self, k: i64, n: i64, g: i64) -> (String, Vec<Value>) {
        let kk = key(&NODE, self.dist[k as usize - 1]);
        let r = match self.store.as_mut().unwrap() {
            Store::Radius(s) => s.insert(&kk, value(n, g)),
            Store::Plain(s) => s.insert(&kk, value(n, g), (k % 3) as u8, 100 + k as u64).map(|_| vec![]),
        };
        match r {
            Ok(ret) => {
                ("ok".into(), ret.into_iter().map(|(k, v)| json!([self.keyno(&k), name(&v)])).collect())
            }
            Err(ContentStoreError::InsufficientRadius { .. }) => ("radius".into(), vec![]),
            Err(e) => (format!("error: {e}"), vec![]),
        }
    }
    fn delete(&mut self, k: i64) -> String {
        let kk = key(&NODE, self.dist[k as usize - 1]);
        let id = ContentId::from(B256::from(kk.content_id()));
        let r = match self.store.as_mut().unwrap() {
            Store::Radius(s) => s.delete(&id),
            Store::Plain(s) => s.delete(&id),
        };
        r.map(|_| "ok".to_string()).unwrap_or_else(|e| format!("error: {e}"))
    }
    fn pages(&self, limit: u64, cuts: &[(u64, u64)]) -> Result<(Vec<i64>, Vec<Value>), String> {
        let Some(Store::Radius(s)) = self.store.as_ref() else { return Ok((vec![], vec![])) };
        let mut all = vec![];
        let mut off = 0;
        loop {
            let p = s.paginate(off, limit).map_err(|e| e.to_string())?;
            let n = p.content_keys.len();
            all.extend(p.content_keys.iter().map(|k| self.keyno(k)));
            off += limit;
            if n == 0 || off > 2000 {
                break;
            }
        }
        let mut out = vec![];
        for (o, l) in cuts {
            let p = s.paginate(*o, *l).map_err(|e| e.to_string())?;
            out.push(json!({"off": o, "lim": l, "keys": p.content_keys.iter().map(|k| self.keyno(k)).collect::<Vec<_>>()}));
        }
        Ok((all, out))
    }
    /// Runs one operation of a program and returns its events.
    fn step(&mut self, op: &Value) -> Vec<Value> {
        let what = text(op, "op").to_string();
        let r = guarded(|| match what.as_str() {
            "init" | "open" => {
                self.store = None;
                let mut ev = json!({"e": "open", "op": "open", "k": 0, "cap": op["cap"], "maxR": op["maxR"], "ret": []});
                match self.open(int(op, "cap"), int(op, "maxR"), NODE) {
                    Ok(s) => {
                        self.store = Some(s);
                        ev["res"] = json!("ok");
                        self.observe(&mut ev);
                    }
                    Err(e) => {
                        ev["res"] = json!(format!("error: {e}"));
                        for f in ["radius", "count", "bytes", "est"] {
                            ev[f] = json!(-1);
                        }
                        ev["add"] = json!([]);
                        ev["del"] = json!([]);
                        ev["odd"] = json!([]);
                    }
                }
                vec![ev]
            }
            "insert" => {
                let (res, ret) = self.insert(int(op, "k"), int(op, "n"), int(op, "g"));
                let n = int(op, "n");
                let mut ev = json!({"e": "insert", "op": "insert", "k": op["k"],
                    "x": {"v": name(&value(n, int(op, "g"))), "n": n}, "res": res, "ret": ret});
                self.observe(&mut ev);
                vec![ev]
            }
            "delete" => {
                let res = self.delete(int(op, "k"));
                let mut ev = json!({"e": "delete", "op": "delete", "k": op["k"], "res": res, "ret": []});
                self.observe(&mut ev);
                vec![ev]
            }
            "page" => {
                let mut out = vec![];
                let n = self.dist.len() as u64;
                for limit in [1, 2, 3, n.max(4) - 1, n, n + 1, 1000] {
                    let cuts = [(0, 0), (0, limit), (1, limit), (n / 2, 2), (n, 1), (n + 5, 3)];
                    let (keys, cuts, res) = match self.pages(limit, &cuts) {
                        Ok((k, c)) => (k, c, "ok".to_string()),
                        Err(e) => (vec![-1], vec![], e),
                    };
                    out.push(json!({"e": "page", "op": "page", "res": res, "keys": keys, "cuts": cuts, "add": [], "del": [], "odd": []}));
                }
                out
            }
            // Opening under another identity, or as another version, and then as before.
            "foreign" => {
                let cap = int(op, "cap");
                let max_r = int(op, "maxR");
                self.store = None;
                let how = text(op, "how").to_string();
                let refuse = how != "node" || (!self.seen.is_empty() && !self.plain);
                let ok = match how.as_str() {
                    "node" => {
                        let mut id = NODE;
                        id[int(op, "byte") as usize] ^= 0x21;
                        self.open(cap, max_r, id).map(|_| ()).is_ok()
                    }
                    // the database is asked for by a store of another version
                    "newer" => {
                        let c = self.config(cap, max_r, NODE).expect("config");
                        create_store::<Other>(self.ctype.clone(), (), c.sql_connection_pool).is_ok()
                    }
                    // the database was written by a store of another version
                    _ => {
                        let d = tempfile::tempdir_in(&self.dir).unwrap();
                        let here = std::mem::replace(&mut self.dir, d.path().into());
                        let c = self.config(cap, max_r, NODE).expect("config");
                        create_store::<Other>(self.ctype.clone(), (), c.sql_connection_pool).map(|_| ()).expect("fresh");
                        let r = self.open(cap, max_r, NODE).map(|_| ()).is_ok();
                        self.dir = here;
                        r
                    }
                };
                let mut ev = json!({"e": "foreign", "op": "foreign", "k": 0, "how": how, "refuse": refuse,
                    "res": if ok { "ok" } else { "refused" }, "ret": [], "add": [], "del": [], "odd": []});
                match self.open(cap, max_r, NODE) {
                    Ok(s) => {
                        self.store = Some(s);
                        let mut o = json!({});
                        self.observe(&mut o);
                        ev["add"] = o["add"].clone();
                        ev["del"] = o["del"].clone();
                    }
                    Err(_) => {
                        let now = BTreeMap::new();
                        let mut o = json!({});
                        self.diff(now, &mut o);
                        ev["del"] = o["del"].clone();
                    }
                }
                vec![ev]
            }
            o => panic!("driver: unknown op {o}"),
        });
        match r {
            Ok(v) => v,
            Err(m) => vec![panic_event(&what, &m)],
        }
    }
}

fn look(
    i: usize,
    k: &IdentityContentKey,
    v: Result<Option<RawContentValue>, ContentStoreError>,
    has: Result<bool, ContentStoreError>,
    kk: Result<Option<IdentityContentKey>, ContentStoreError>,
    now: &mut BTreeMap<usize, (String, i64)>,
    odd: &mut Vec<String>,
) {
    match (&v, &has, &kk) {
        (Ok(Some(_)), Ok(true), Ok(Some(x))) if x == k => {}
        (Ok(None), Ok(false), Ok(None)) => {}
        _ => odd.push(format!("{i}: {} {has:?} {}", matches!(v, Ok(Some(_))), matches!(kk, Ok(Some(_))))),
    }
    if let Ok(Some(v)) = v {
        now.insert(i, (name(&v), v.len() as i64));
    }
}

fn cfg(init: &Value) -> Value {
    let plain = text(init, "kind") == "plain";
    json!({"kind": init["kind"], "cap": init["cap"], "maxR": init["maxR"], "base": BASE,
           "extra": if plain { json!(0) } else { init["extra"].clone() }, "dist": init["dist"]})
}

fn expand(p: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    for op in p {
        if op["op"] == "fill" {
            for k in int(op, "from")..=int(op, "to") {
                out.push(json!({"op": "insert", "k": k, "n": op["n"], "g": 1}));
            }
        } else {
            out.push(op.clone());
        }
    }
    out
}

fn plain_run(i: usize, p: &[Value]) -> Value {
    let dir = tempfile::tempdir().expect("tempdir");
    let mut w = World::new(dir.path(), &p[0]);
    let mut ev = vec![];
    for op in p {
        let e = w.step(op);
        let stop = e.iter().any(|x| x["e"] == "panic") || w.store.is_none();
        ev.extend(e);
        if stop {
            break;
        }
    }
    json!({"id": i, "cfg": cfg(&p[0]), "ev": ev, "program": p})
}

/// The child of a crash run: everything up to the last operation, then the last one with the
/// process killed before its n-th database statement.
fn child(args: &[String]) {
    let p: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let n: i64 = args[2].parse().unwrap();
    let dir = std::path::PathBuf::from(&args[1]);
    let mut w = World::new(&dir, &p[0]);
    for op in &p[..p.len() - 1] {
        w.step(op);
    }
    rusqlite::faults::reset();
    if n > 0 {
        rusqlite::faults::crash_at(n);
    }
    let last = &p[p.len() - 1];
    match text(last, "op") {
        "insert" => {
            w.insert(int(last, "k"), int(last, "n"), int(last, "g"));
        }
        "delete" => {
            w.delete(int(last, "k"));
        }
        _ => {
            w.store = None;
            let _ = w.open(int(last, "cap"), int(last, "maxR"), NODE);
        }
    }
    println!("{}", rusqlite::faults::count());
}

fn crash_runs(i: usize, p: &[Value]) -> Vec<Value> {
    let last = p[p.len() - 1].clone();
    let exe = std::env::current_exe().unwrap();
    let spawn = |n: i64, dir: &Path| {
        let pf = dir.join("program.json");
        std::fs::write(&pf, serde_json::to_string(p).unwrap()).unwrap();
        let db = dir.join("db");
        std::fs::create_dir_all(&db).unwrap();
        Command::new(&exe)
            .args(["child".as_ref(), pf.as_os_str(), db.as_os_str(), n.to_string().as_ref()])
            .stderr(std::process::Stdio::null())
            .output()
            .expect("child")
    };
    let d = tempfile::tempdir().unwrap();
    let o = spawn(0, d.path());
    let total: i64 = String::from_utf8_lossy(&o.stdout).trim().parse().unwrap_or(0);
    let mut out = vec![];
    // what the prefix leads to, recorded once in this process
    let prefix = plain_run(i, &p[..p.len() - 1]);
    let pre = prefix["ev"].as_array().unwrap();
    if pre.iter().any(|e| e["e"] == "panic") {
        return vec![prefix];
    }
    for n in 1..=total {
        let d = tempfile::tempdir().unwrap();
        let o = spawn(n, d.path());
        let died = !o.status.success();
        let mut w = World::new(&d.path().join("db"), &p[0]);
        // contents before, so that the observation is a difference to them
        for e in pre {
            for x in e["del"].as_array().into_iter().flatten() {
                w.seen.remove(&(x.as_u64().unwrap() as usize));
            }
            for x in e["add"].as_array().into_iter().flatten() {
                w.seen.insert(int(x, "k") as usize, (text(x, "v").into(), int(x, "n")));
            }
        }
        let mut cap = p[0]["cap"].clone();
        let mut max_r = p[0]["maxR"].clone();
        for op in p {
            if op["op"] == "open" {
                cap = op["cap"].clone();
                max_r = op["maxR"].clone();
            }
        }
        let mut ev = w.step(&json!({"op": "open", "cap": cap, "maxR": max_r})).remove(0);
        if ev["e"] != "panic" && last["op"] != "open" {
            ev["e"] = json!("crash");
            ev["op"] = last["op"].clone();
            ev["k"] = last["k"].clone();
            if last["op"] == "insert" {
                let v = value(int(&last, "n"), int(&last, "g"));
                ev["x"] = json!({"v": name(&v), "n": v.len()});
            }
        }
        ev["at"] = json!(n);
        ev["died"] = json!(died);
        let mut evs = pre.clone();
        evs.push(ev);
        out.push(json!({"id": i, "cfg": cfg(&p[0]), "ev": evs, "program": p, "crash": n}));
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("child") {
        quiet_panics();
        return child(&a[2..]);
    }
    run(|i, v| {
        let p = expand(v["ops"].as_array().expect("ops"));
        if v["crash"] == json!(true) {
            crash_runs(i, &p)
        } else {
            vec![plain_run(i, &p)]
        }
    });
}
