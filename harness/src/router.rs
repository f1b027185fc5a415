//! The routing table: replays walks through the specification and records
//! histories of it.

use std::collections::HashMap;
use std::path::{Path, PathBuf};

use hyperborealib::drivers::server::router::Router;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::fsgate;
use crate::script::*;
use crate::util::*;

pub const TYPES: [ClientType; 4] = [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File];

pub fn type_of(ty: u64) -> Option<ClientType> {
    ty.checked_sub(1).map(|n| TYPES[n as usize])
}

/// A record as the specification sees it: table, key, content, date and type.
#[derive(Debug, Clone, PartialEq)]
pub struct Rec {
    pub table: String,
    pub k: u64,
    pub v: u64,
    pub d: u64,
    pub ty: u64
}

impl Rec {
    fn of(op: &Json) -> Self {
        Self {
            table: op["op"].as_str().or(op["name"].as_str()).unwrap().to_string(),
            k: op["k"].as_u64().unwrap(),
            v: op["rec"]["v"].as_u64().unwrap(),
            d: op["rec"]["d"].as_u64().unwrap(),
            ty: op["rec"]["ty"].as_u64().unwrap()
        }
    }
}

pub struct Table {
    pub seed: u64,
    pub root: PathBuf,
    pub keys: u64,
    /// Dates of certificates from the oldest.
    pub dates: Vec<u64>,
    /// All the records that are indexed in this history.
    pub known: Vec<Rec>,
    numbers: HashMap<PublicKey, u64>,
    of_key: HashMap<u64, Vec<usize>>
}

impl Table {
    pub fn new(seed: u64, root: PathBuf, keys: u64, dates: Vec<u64>, known: Vec<Rec>) -> Self {
        let mut of_key: HashMap<u64, Vec<usize>> = HashMap::new();

        for (number, rec) in known.iter().enumerate() {
            of_key.entry(rec.k).or_default().push(number);
        }

        let numbers = (1..=keys).map(|k| (public(seed, 20_000 + k), k)).collect();
        Self { seed, root, keys, dates, known, numbers, of_key }
    }

    pub fn key(&self, k: u64) -> PublicKey {
        public(self.seed, 20_000 + k)
    }

    fn rng(&self, rec: &Rec) -> Rng {
        let salt = match rec.table.as_str() { "local" => 1, "remote" => 2, _ => 3 };
        Rng::new(self.seed.wrapping_mul(31) ^ salt, (rec.k * 1000 + rec.v) * 16 + rec.ty)
    }

    pub fn client(&self, rec: &Rec) -> Client {
        let mut rng = self.rng(rec);
        let server = public(self.seed, 900 + rng.next() % 5);
        let mut certificate = any_certificate(&mut rng, server);
        certificate.token.auth_date = self.dates[rec.d as usize - 1];
        certificate.sign.extend(rec.v.to_be_bytes());
        let mut info = any_info(&mut rng);
        info.client_type = type_of(rec.ty).unwrap();
        Client::new(self.key(rec.k), certificate, info)
    }

    pub fn server(&self, rec: &Rec) -> Server {
        let mut rng = self.rng(rec);
        rng.next();
        let address = rng.named(30, rec.v as u64);

        if rec.table == "server" {
            Server::new(self.key(rec.k), address)
        } else {
            // it can be one of the keys in the table, too
            let key = if rng.chance(50) { self.key(1 + rng.next() % self.keys) } else { public(self.seed, 950) };
            Server::new(key, address)
        }
    }

    fn content(&self, table: &str, key: &PublicKey, same: impl Fn(&Rec) -> bool) -> (u64, i64) {
        if let Some(k) = self.numbers.get(key) {
            let known = self.of_key.get(k).into_iter().flatten().map(|number| &self.known[*number]);

            return match known.filter(|rec| rec.table == table).find(|rec| same(rec)) {
                Some(rec) => (*k, rec.v as i64),
                None => (*k, -1)
            };
        }

        (0, -1)
    }

    fn listing(&self, records: impl Iterator<Item = (u64, i64)>) -> Vec<i64> {
        let mut found = vec![0; self.keys as usize];

        for (k, v) in records {
            if k == 0 {
                // no one has ever indexed this key
                found.fill(-3);
            } else if found[k as usize - 1] != 0 {
                found[k as usize - 1] = -2;
            } else {
                found[k as usize - 1] = v;
            }
        }

        found
    }

    fn of_local(&self, client: &Client) -> (u64, i64) {
        self.content("local", &client.public_key, |rec| self.client(rec) == *client)
    }

    fn of_remote(&self, client: &Client, server: &Server) -> (u64, i64) {
        self.content("remote", &client.public_key, |rec| self.client(rec) == *client && self.server(rec) == *server)
    }

    fn of_server(&self, server: &Server) -> (u64, i64) {
        self.content("server", &server.public_key, |rec| self.server(rec) == *server)
    }

    fn one(&self, k: u64, found: Option<(u64, i64)>) -> i64 {
        match found {
            None => 0,
            Some((key, v)) if key == k => v,
            Some(_) => -2
        }
    }

    pub async fn index<R: Router + Sync>(&self, router: &R, rec: &Rec) -> Result<bool, String> {
        match rec.table.as_str() {
            "local" => router.index_local_client(self.client(rec)).await,
            "remote" => router.index_remote_client(self.client(rec), self.server(rec)).await,
            "server" => router.index_server(self.server(rec)).await,
            _ => unreachable!()
        }.map_err(|err| err.to_string())
    }

    pub async fn list<R: Router + Sync>(&self, router: &R, what: &str) -> Result<Vec<i64>, String> {
        let text = |err: R::Error| err.to_string();

        Ok(match what {
            "locals" => self.listing(router.local_clients().await.map_err(text)?.iter().map(|client| self.of_local(client))),
            "remotes" => self.listing(router.remote_clients().await.map_err(text)?.iter().map(|(client, server)| self.of_remote(client, server))),
            "servers" => self.listing(router.servers().await.map_err(text)?.iter().map(|server| self.of_server(server))),
            "hints" => self.listing(router.lookup_remote_client_hint(&self.key(1), None).await.map_err(text)?.iter().map(|server| self.of_server(server))),
            _ => unreachable!()
        })
    }

    pub async fn find<R: Router + Sync>(&self, router: &R, what: &str, k: u64, ty: u64) -> Result<i64, String> {
        let text = |err: R::Error| err.to_string();
        let key = self.key(k);

        Ok(self.one(k, match what {
            "flocal" => router.lookup_local_client(&key, type_of(ty)).await.map_err(text)?.map(|(client, _)| self.of_local(&client)),
            "fremote" => router.lookup_remote_client(&key, type_of(ty)).await.map_err(text)?.map(|(client, server, _)| self.of_remote(&client, &server)),
            "fserver" => router.lookup_server(&key).await.map_err(text)?.map(|(server, _)| self.of_server(&server)),
            _ => unreachable!()
        }))
    }
}

pub fn new_router(runtime: &tokio::runtime::Runtime, root: &Path) -> GlobalTableRouter {
    run_as(1, runtime, GlobalTableRouter::new(root)).expect("new").expect("new router")
}

/// Sorted dates with a bias for the ends of the range.
pub fn any_dates(rng: &mut Rng, count: usize) -> Vec<u64> {
    loop {
        let mut dates: Vec<u64> = (0..count).map(|_| rng.number()).collect();

        if rng.chance(50) {
            let base = rng.number();
            dates = (0..count as u64).map(|n| base.wrapping_add(n)).collect();
        }

        dates.sort();
        dates.dedup();

        if dates.len() == count {
            return dates;
        }
    }
}

// ------------------------------------------------------------ flow A

pub fn walks(plan: &Json, seed: u64) -> Json {
    let edges = plan["edges"].as_array().unwrap();
    let runtime = runtime(1);
    let mut steps = 0;
    let mut known = Vec::new();

    for edge in edges {
        if edge["op"].get("rec").is_some() {
            let rec = Rec::of(&edge["op"]);

            if !known.contains(&rec) {
                known.push(rec);
            }
        }
    }

    let dates = known.iter().map(|rec| rec.d).max().unwrap() as usize;

    for (number, walk) in plan["walks"].as_array().unwrap().iter().enumerate() {
        let mut rng = Rng::new(seed, 400 + number as u64);
        let root = scratch();
        fsgate::guard(&root);

        let table = Table::new(world(seed, number as u64), root.join("router"), 2, any_dates(&mut rng, dates), known.clone());
        let mut router = new_router(&runtime, &table.root);
        let mut done: Vec<&Json> = Vec::new();

        for edge in walk.as_array().unwrap() {
            let edge = &edges[edge.as_u64().unwrap() as usize];
            let op = &edge["op"];
            done.push(op);
            steps += 1;
            watch(|| format!("walk {number}: {op}"));

            let k = op["k"].as_u64().unwrap_or(0);

            let outcome = run_as(1, &runtime, async {
                match op["name"].as_str().unwrap() {
                    "restart" => router = GlobalTableRouter::new(&table.root).await.map_err(|err| err.to_string())?,

                    "disconnect" => router.disconnect(&table.key(k)).await.map_err(|err| err.to_string())?,

                    "lookup" => {
                        let ty = op["ty"].as_u64().unwrap();

                        for (what, expected) in [("flocal", "loc"), ("fremote", "rem"), ("fserver", "srv")] {
                            let found = table.find(&router, what, k, ty).await?;

                            if json!(found) != op[expected] {
                                return Err(format!("{what} found {found}"));
                            }
                        }

                        if json!(table.list(&router, "hints").await?) != edge["to"]["servers"] {
                            return Err(String::from("hints differ from the known servers"));
                        }
                    }

                    _ => {
                        let result = table.index(&router, &Rec::of(op)).await?;

                        if op["done"] != "any" && op["done"] != result.to_string().to_uppercase() {
                            return Err(format!("indexing returned {result}"));
                        }
                    }
                }

                for (what, expected) in [("locals", "local"), ("remotes", "remote"), ("servers", "servers")] {
                    let found = table.list(&router, what).await?;

                    if json!(found) != edge["to"][expected] {
                        return Err(format!("{what} are {found:?} instead of {}", edge["to"][expected]));
                    }
                }

                Ok(())
            }).and_then(|result| result);

            if let Err(err) = outcome {
                let tail = &done[done.len().saturating_sub(30)..];
                return json!({ "steps": steps, "failure": { "kind": "result differs from the specification's", "dates": table.dates, "history (last is wrong)": tail, "what": err } });
            }
        }

        unwatch();
        std::fs::remove_dir_all(&root).unwrap();
    }

    json!({ "steps": steps })
}

// ------------------------------------------------------------ flow B

/// Ops: those in TraceRouter.
pub struct RouterSubject {
    table: Table,
    router: GlobalTableRouter
}

impl Subject for RouterSubject {
    fn new(script: &Json, runtime: &tokio::runtime::Runtime) -> Self {
        let root = PathBuf::from(script["root"].as_str().unwrap());

        let known = all_ops(script).into_iter().filter(|op| op.get("rec").is_some_and(|rec| rec["v"] != 0)).map(Rec::of).collect();

        Self {
            router: new_router(runtime, &root),

            table: Table::new(
                script["seed"].as_u64().unwrap(),
                root,
                script["keys"].as_u64().unwrap(),
                script["dates"].as_array().unwrap().iter().map(|date| date.as_u64().unwrap()).collect(),
                known
            )
        }
    }

    fn reopen(&mut self, runtime: &tokio::runtime::Runtime) {
        self.router = new_router(runtime, &self.table.root);
    }

    fn call(op: &Json) -> Json {
        let number = |name: &str| op[name].as_u64().unwrap_or(0);
        let rec = |name: &str| op["rec"][name].as_u64().unwrap_or(0);

        json!({ "op": op["op"], "k": number("k"), "ty": number("ty"), "rec": { "v": rec("v"), "d": rec("d"), "ty": rec("ty") } })
    }

    fn failed() -> Json {
        json!({ "done": false, "recs": [], "found": 0 })
    }

    async fn exec(&self, op: &Json, _base: u64) -> Result<Json, String> {
        let what = op["op"].as_str().unwrap();
        let mut result = Self::failed();
        let number = |name: &str| op[name].as_u64().unwrap_or(0);

        match what {
            "local" | "remote" | "server" => result["done"] = json!(self.table.index(&self.router, &Rec::of(op)).await?),
            "disconnect" => self.router.disconnect(&self.table.key(number("k"))).await.map_err(|err| err.to_string())?,
            "flocal" | "fremote" | "fserver" => result["found"] = json!(self.table.find(&self.router, what, number("k"), number("ty")).await?),
            _ => result["recs"] = json!(self.table.list(&self.router, what).await?)
        }

        Ok(result)
    }

    fn clone(&self) -> Self {
        let Table { seed, root, keys, dates, known, .. } = &self.table;

        Self {
            table: Table::new(*seed, root.clone(), *keys, dates.clone(), known.clone()),
            router: self.router.clone()
        }
    }
}

struct Gen {
    rng: Rng,
    v: u64,
    keys: usize,
    dates: usize,
    /// Indexed before, to index the very same again.
    before: Vec<Json>,
    /// Only what concerns announcements of clients.
    remote: bool
}

impl Gen {
    fn header(&mut self, seed: u64, root: &Path) -> Json {
        let dates = any_dates(&mut self.rng, self.dates);
        json!({ "system": "router", "seed": world(seed, self.rng.next()), "root": root.join("router"), "guard": root, "keys": self.keys, "dates": dates })
    }

    fn index(&mut self, k: usize) -> Json {
        if !self.before.is_empty() && self.rng.chance(10) {
            return self.rng.pick(&self.before).clone();
        }

        let table = if self.remote { "remote" } else { *self.rng.pick(&["local", "local", "remote", "remote", "server"]) };
        self.index_in(table, k)
    }

    fn index_in(&mut self, table: &str, k: usize) -> Json {
        self.v += 1;

        let rec = if table == "server" {
            json!({ "v": self.v, "d": 0, "ty": 0 })
        } else {
            json!({ "v": self.v, "d": self.rng.range(1, self.dates), "ty": self.rng.range(1, 4) })
        };

        let op = json!({ "op": table, "k": k, "rec": rec });
        self.before.push(op.clone());
        op
    }

    fn key(&mut self) -> usize {
        self.rng.range(1, self.keys)
    }

    fn change(&mut self, k: usize) -> Json {
        if self.rng.chance(if self.remote { 12 } else { 25 }) {
            json!({ "op": "disconnect", "k": k })
        } else {
            self.index(k)
        }
    }

    fn read(&mut self, k: usize) -> Json {
        let what = if self.remote {
            *self.rng.pick(&["remotes", "fremote"])
        } else {
            *self.rng.pick(&["locals", "remotes", "servers", "hints", "flocal", "flocal", "fremote", "fremote", "fserver"])
        };

        if what.starts_with('f') {
            json!({ "op": what, "k": k, "ty": if self.rng.chance(40) { 0 } else { self.rng.range(1, 4) } })
        } else {
            json!({ "op": what })
        }
    }

    fn op(&mut self) -> Json {
        let k = self.key();
        if self.rng.chance(55) { self.change(k) } else { self.read(k) }
    }

    /// One table of two clients is read while both are changed one after the other:
    /// what is read was there at one time.
    fn snapshot(&mut self) -> (Vec<Json>, Vec<Vec<Json>>) {
        let table = *self.rng.pick(&["local", "remote", "server"]);
        let first = self.rng.range(1, self.keys);
        let second = first % self.keys + 1;
        let mut prefix = Vec::new();

        for k in [first, second] {
            if self.rng.chance(80) {
                prefix.push(self.index_in(table, k));
            }
        }

        let list = json!({ "op": if self.rng.chance(75) { format!("{table}s") } else { "hints".to_string() } });

        let changes = [first, second].into_iter().map(|k| match self.rng.below(10) {
            0..=3 => json!({ "op": "disconnect", "k": k }),
            _ => self.index_in(table, k)
        }).collect();

        (prefix, vec![vec![list], changes])
    }

    /// A client leaves while it is indexed here and there.
    fn leaving(&mut self) -> (Vec<Json>, Vec<Vec<Json>>) {
        let k = self.key();
        let (mut one, mut other) = ("local", "remote");

        if self.rng.chance(50) {
            std::mem::swap(&mut one, &mut other);
        }

        let prefix = if self.rng.chance(50) { vec![self.index_in("server", k)] } else { Vec::new() };
        (prefix, vec![vec![json!({ "op": "disconnect", "k": k })], vec![self.index_in(one, k), self.index_in(other, k)]])
    }

    fn all(&mut self) -> Vec<Json> {
        let mut ops: Vec<Json> = ["locals", "remotes", "servers", "hints"].iter().map(|what| json!({ "op": what })).collect();

        for k in 1..=self.keys {
            for what in ["flocal", "fremote", "fserver"] {
                let ty = if self.rng.chance(50) { 0 } else { self.rng.range(1, 4) };
                ops.push(json!({ "op": what, "k": k, "ty": ty }));
            }
        }

        ops
    }
}

/// Record histories of the routing table for TLC to judge.
pub fn campaign(plan: &Json, seed: u64) -> Json {
    let what = plan["what"].as_str().unwrap();
    let count = plan["count"].as_u64().unwrap();
    let shard = plan["shard"].as_u64().unwrap();
    let number = |name: &str, default: u64| plan[name].as_u64().unwrap_or(default) as usize;
    let remote = plan["remote"] == true;
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{what}-{shard}"));
    histories.header = json!({ "keys": 6 });
    let mut schedules = 0;
    let mut slow = slow(shard);
    let mut rng = Rng::new(seed, 5000 + shard * 7919 + remote as u64);
    let start = std::time::Instant::now();
    let budget = plan["seconds"].as_f64().unwrap_or(1e9);

    for round in 0..count {
        if start.elapsed().as_secs_f64() > budget {
            break;
        }

        let dir = scratch();
        let mut rng = Rng::new(rng.next(), round);

        let keys = match what {
            "random" if !remote => rng.range(1, 6),
            "schedule" | "stress" if !remote => *rng.pick(&[1, 2, 2]),
            _ => rng.range(1, 2)
        };

        let mut gen = Gen { v: 0, keys, dates: rng.range(1, 5), before: Vec::new(), remote, rng: Rng::new(rng.next(), 1) };
        let script = gen.header(seed, &dir);
        let set = |ops: Vec<Json>| {
            let mut script = script.clone();
            script["ops"] = json!(ops);
            script
        };

        match what {
            "random" => {
                let mut ops = Vec::new();
                let mut processes = Vec::new();
                let in_parts = rng.chance(20);

                for _ in 0..rng.range(1, number("length", 100)) {
                    match rng.below(100) {
                        0..=3 => ops.push(json!({ "op": "restart" })),
                        4..=6 => ops.push(json!({ "op": "tick", "s": any_tick(&mut rng) })),
                        7..=8 if in_parts => processes.push(std::mem::take(&mut ops)),
                        _ => ops.push(gen.op())
                    }
                }

                ops.extend(gen.all());
                processes.push(ops);

                if in_parts {
                    record_parts(&script, &processes, &mut histories, json!(what));
                } else {
                    record::<RouterSubject>(&set(processes.concat()), &mut histories, json!(what));
                }
            }

            "long" => {
                let sizes = plan["sizes"].as_array().unwrap();
                long(seed, &dir, &mut rng, sizes[(shard + round * 8) as usize % sizes.len()].as_u64().unwrap(), &mut histories);
            }

            "crash" | "fault" => {
                let prefix: Vec<Json> = (0..rng.range(0, 5)).map(|_| { let k = gen.key(); gen.index(k) }).collect();
                let k = gen.key();

                let victim = match rng.below(10) {
                    0..=4 => gen.index(k),
                    5..=7 => json!({ "op": "disconnect", "k": k }),
                    _ if what == "fault" => gen.read(k),
                    _ => gen.change(k)
                };

                let mut suffix = Vec::new();

                if what == "fault" {
                    suffix.push(gen.op());
                    suffix.extend(gen.all());
                }

                if rng.chance(60) {
                    suffix.push(gen.index(k));
                }

                for _ in 0..rng.range(0, 3) {
                    suffix.push(gen.op());
                }

                suffix.extend(gen.all());

                if what == "crash" {
                    record_crashes::<RouterSubject>(&script, &prefix, &victim, &suffix, &mut rng, plan["again"].as_u64().unwrap_or(30), &mut histories);
                } else {
                    suffix.push(json!({ "op": "restart" }));
                    suffix.extend(gen.all());
                    record_faults::<RouterSubject>(&script, &prefix, &victim, &suffix, &mut rng, &mut histories);
                }
            }

            "schedule" | "stress" => {
                let free = what == "stress";
                let prefix: Vec<Json> = if free { Vec::new() } else { (0..rng.range(0, 3)).map(|_| { let k = gen.key(); gen.index(k) }).collect() };

                let shape: Vec<usize> = if free {
                    (0..rng.range(2, 4)).map(|_| rng.range(1, 4)).collect()
                } else {
                    rng.pick(&[vec![1, 1], vec![1, 1], vec![2, 1], vec![1, 1, 1], vec![2, 2]]).clone()
                };

                let (prefix, threads) = match rng.below(100) {
                    0..=34 if !remote && keys > 1 => gen.snapshot(),
                    35..=44 if !remote => gen.leaving(),
                    _ => (prefix, shape.iter().map(|count| (0..*count).map(|_| gen.op()).collect()).collect())
                };

                let prefix = if free { Vec::new() } else { prefix };
                let suffix = gen.all();

                if free {
                    record_stress::<RouterSubject>(&script, &threads, &suffix, &mut histories);
                } else {
                    let handles = rng.chance(50);
                    schedules += record_schedules::<RouterSubject>(&script, &prefix, &threads, &suffix, handles, number("bound", 2), number("max", 60), &mut slow, &mut rng, &mut histories);
                }
            }

            _ => unreachable!()
        }

        let _ = std::fs::remove_dir_all(&dir);
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events, "schedules": schedules })
}

/// Histories with large tables. Records of keys that had none are indexed in runs, each
/// of them recorded as one `fill` event.
fn long(seed: u64, dir: &Path, rng: &mut Rng, keys: u64, histories: &mut Histories) {
    fsgate::guard(dir);
    let runtime = runtime(1);
    let root = dir.join("router");
    let dates = any_dates(rng, 3);
    let mut left = HashMap::new();
    let mut known = Vec::new();
    let mut runs = Vec::new();

    for table in ["local", "remote", "server"] {
        // mostly all of them
        let count = if rng.chance(80) { keys } else { rng.next() % keys + 1 };
        left.insert(table, (1..=count).collect::<Vec<u64>>());
    }

    while !left.is_empty() {
        let table = *rng.pick(&{ let mut tables: Vec<_> = left.keys().copied().collect(); tables.sort(); tables });
        let keys = left.get_mut(table).unwrap();
        let count = rng.range(1, 500).min(keys.len());
        let run: Vec<u64> = keys.drain(..count).collect();

        if keys.is_empty() {
            left.remove(table);
        }

        let (d, ty) = if table == "server" { (0, 0) } else { (rng.range(1, 3) as u64, rng.range(1, 4) as u64) };
        let recs: Vec<Rec> = run.iter().map(|k| Rec { table: table.to_string(), k: *k, v: 1, d, ty }).collect();
        known.extend(recs.clone());
        runs.push(recs);
    }

    // and some of them again, later
    let mut gen = Gen { v: 1, keys: keys as usize, dates: 3, before: Vec::new(), remote: false, rng: Rng::new(rng.next(), 1) };
    let mut ops: Vec<Json> = ["locals", "remotes", "servers", "hints"].iter().map(|what| json!({ "op": what })).collect();

    for _ in 0..30 {
        let k = gen.key();
        ops.push(gen.change(k));

        if rng.chance(40) {
            ops.push(gen.read(k));
        }
    }

    for what in ["flocal", "fremote", "fserver"] {
        for k in [1, keys as usize, gen.key()] {
            ops.push(json!({ "op": what, "k": k, "ty": 0 }));
        }
    }

    ops.extend(["locals", "remotes", "servers", "hints"].iter().map(|what| json!({ "op": what })));
    known.extend(ops.iter().filter(|op| op.get("rec").is_some()).map(Rec::of));

    let table = Table::new(seed, root.clone(), keys, dates, known);
    let subject = RouterSubject { router: new_router(&runtime, &root), table };
    let mut events = Vec::new();

    for run in runs {
        watch(|| format!("indexing {} records", run.len()));

        let result = run_as(1, &runtime, async {
            for rec in &run {
                if !subject.table.index(&subject.router, rec).await? {
                    return Err(format!("not indexed: {rec:?}"));
                }
            }

            Ok(())
        }).and_then(|result| result);

        unwatch();

        let Rec { table, k, v, d, ty } = &run[0];

        events.push(match result {
            Ok(()) => json!({ "e": "fill", "op": table, "from": k, "to": run.last().unwrap().k, "rec": { "v": v, "d": d, "ty": ty } }),
            Err(err) => json!({ "e": "broken fill", "what": err })
        });
    }

    for op in ops {
        let mut call = RouterSubject::call(&op);
        call["e"] = json!("call");
        events.push(call);
        watch(|| op.to_string());
        let result = run_as(1, &runtime, subject.exec(&op, 0)).and_then(|result| result);
        unwatch();

        let mut event = match result {
            Ok(result) => result,
            Err(err) => { let mut event = RouterSubject::failed(); event["what"] = json!(err); event }
        };

        event["e"] = json!("ret");
        event["ok"] = json!(event.get("what").is_none());
        event["fault"] = json!(false);
        events.push(event);
    }

    link(&mut events);
    histories.header = json!({ "keys": keys });
    histories.add(events, json!({ "keys": keys }));
}
