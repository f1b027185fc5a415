//! The messages inbox: replays walks through the specification and records
//! histories of it.

use std::collections::HashMap;
use std::path::{Path, PathBuf};

use hyperborealib::drivers::server::messages_inbox::MessagesInbox;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use crate::fsgate::{self, Mode};
use crate::script::*;
use crate::util::*;

/// Content of the message of the given kind, the same whenever it's asked for.
pub fn message_of(seed: u64, kind: u64, size: usize) -> (Sender, Message) {
    let mut rng = Rng::new(seed, 77_000 + kind);
    let mut sender = Sender::new(any_client(seed, &mut rng), any_server(seed, &mut rng));

    // the receivers write to themselves and to one another too
    if rng.chance(30) {
        sender.client.public_key = public(seed, 10_000 + rng.next() % 2);
    }

    let mut content = format!("{kind} ");
    let mut sign = if rng.chance(20) { String::new() } else { rng.text(100) };

    if size < 2000 {
        content.push_str(&rng.text(size));

        // it has to be told from others by one of them
        if rng.chance(20) {
            sign = format!("{kind} {sign}");
            content = rng.pick(&["", "", " ", "\n", "null", "\0"]).to_string();
        }
    } else {
        content.push_str(&"m".repeat(size));
    }

    (sender, Message::new(content, sign, any_encoding(&mut rng)))
}

pub struct Sut {
    pub seed: u64,
    pub root: PathBuf,
    pub receivers: Vec<PublicKey>,
    pub channels: Vec<String>,
    /// Kinds that were ever stored, to recognise them.
    pub sizes: HashMap<u64, usize>,
    recognised: std::sync::Mutex<HashMap<u64, (Sender, Message)>>
}

pub type Polled = (Vec<u64>, Vec<u64>, u64);

impl Sut {
    pub fn new(seed: u64, root: &Path, receivers: usize, channels: &[String]) -> Self {
        Self {
            seed,
            root: root.to_path_buf(),
            receivers: (0..receivers).map(|n| public(seed, 10_000 + n as u64)).collect(),
            channels: channels.to_vec(),
            sizes: HashMap::new(),
            recognised: Default::default()
        }
    }

    /// Which kind of message it is, 0 if it's none that was stored so.
    fn kind_of(&self, info: &MessageInfo, channel: &str) -> u64 {
        let kind = |text: &str| text.split(' ').next().and_then(|kind| kind.parse::<u64>().ok());

        let Some(kind) = kind(&info.message.content).or_else(|| kind(&info.message.sign)) else {
            return 0;
        };

        let Some(size) = self.sizes.get(&kind) else {
            return 0;
        };

        let mut recognised = self.recognised.lock().unwrap();
        let (sender, message) = recognised.entry(kind).or_insert_with(|| message_of(self.seed, kind, *size));

        if info.sender == *sender && info.message == *message && info.channel == channel { kind } else { 0 }
    }

    pub async fn store(&self, inbox: &StoredQueueMessagesInbox, r: usize, c: usize, kind: u64) -> Result<(), String> {
        let (sender, message) = message_of(self.seed, kind, self.sizes[&kind]);

        inbox.add_message(sender, self.receivers[r - 1].clone(), self.channels[c - 1].clone(), message).await
            .map_err(|err| err.to_string())
    }

    pub async fn poll(&self, inbox: &StoredQueueMessagesInbox, r: usize, c: usize, limit: i64) -> Result<Polled, String> {
        let channel = self.channels[c - 1].clone();

        let (messages, remaining) = inbox.poll_messages(self.receivers[r - 1].clone(), channel.clone(), limit_of(limit)).await
            .map_err(|err| err.to_string())?;

        Ok((
            messages.iter().map(|info| self.kind_of(info, &channel)).collect(),
            messages.iter().map(|info| info.received_at).collect(),
            remaining
        ))
    }
}

// ------------------------------------------------------------ flow A

/// Replay walks over the transitions of MCInbox.
pub fn walks(plan: &Json, seed: u64) -> Json {
    let edges = plan["edges"].as_array().unwrap();
    let runtime = runtime(1);
    let mut steps = 0;

    for (number, walk) in plan["walks"].as_array().unwrap().iter().enumerate() {
        let mut rng = Rng::new(seed, number as u64);
        let root = scratch();
        fsgate::guard(&root);

        let names = [rng.text(20), rng.text(20) + "2"];
        let mut sut = Sut::new(world(seed, number as u64), &root.join("inbox"), 2, &names);

        for kind in 1..=4 {
            sut.sizes.insert(kind, *rng.pick(&[0, 1, 30, 300, 20_000]));
        }

        let mut inbox = Some(new_inbox(&runtime, &sut.root));
        let mut done: Vec<&Json> = Vec::new();

        for edge in walk.as_array().unwrap() {
            let op = &edges[edge.as_u64().unwrap() as usize]["op"];
            done.push(op);
            steps += 1;
            watch(|| format!("walk {number}: {op}"));

            let number_of = |name: &str, text: &Json| text.as_str().unwrap()[name.len()..].parse::<usize>().unwrap();

            let outcome = match op["name"].as_str().unwrap() {
                "restart" => {
                    inbox = Some(new_inbox(&runtime, &sut.root));
                    Ok(())
                }

                "store" => {
                    let (r, c) = (number_of("r", &op["r"]), number_of("c", &op["c"]));
                    let kind = op["m"].as_u64().unwrap();
                    run_as(1, &runtime, sut.store(inbox.as_ref().unwrap(), r, c, kind)).and_then(|result| result)
                }

                "poll" => {
                    let (r, c) = (number_of("r", &op["r"]), number_of("c", &op["c"]));
                    let limit = op["limit"].as_i64().unwrap();

                    match run_as(1, &runtime, sut.poll(inbox.as_ref().unwrap(), r, c, limit)).and_then(|result| result) {
                        Ok((kinds, _, remaining)) if json!(kinds) == op["msgs"] && json!(remaining) == op["remaining"] => Ok(()),
                        Ok((kinds, _, remaining)) => Err(format!("returned {kinds:?} (remaining {remaining})")),
                        Err(err) => Err(err)
                    }
                }

                _ => unreachable!()
            };

            if let Err(err) = outcome {
                let tail = &done[done.len().saturating_sub(30)..];
                return json!({ "steps": steps, "failure": { "kind": "result differs from the specification's", "channels": names, "history (last is wrong)": tail, "what": err } });
            }
        }

        unwatch();
        std::fs::remove_dir_all(&root).unwrap();
    }

    json!({ "steps": steps })
}

pub fn new_inbox(runtime: &tokio::runtime::Runtime, root: &Path) -> StoredQueueMessagesInbox {
    run_as(1, runtime, StoredQueueMessagesInbox::new(root)).expect("new").expect("new inbox")
}

// ------------------------------------------------------------ flow B

/// Ops: `store` (r, c, k, size), `poll` (r, c, limit).
pub struct InboxSubject {
    pub sut: Sut,
    pub inbox: StoredQueueMessagesInbox
}

impl Subject for InboxSubject {
    fn new(script: &Json, runtime: &tokio::runtime::Runtime) -> Self {
        let channels: Vec<String> = script["channels"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect();
        let root = PathBuf::from(script["root"].as_str().unwrap());
        let mut sut = Sut::new(script["seed"].as_u64().unwrap(), &root, script["receivers"].as_u64().unwrap() as usize, &channels);

        for op in all_ops(script) {
            if op["op"] == "store" {
                sut.sizes.insert(op["k"].as_u64().unwrap(), op["size"].as_u64().unwrap() as usize);
            }
        }

        Self { inbox: new_inbox(runtime, &root), sut }
    }

    fn reopen(&mut self, runtime: &tokio::runtime::Runtime) {
        self.inbox = new_inbox(runtime, &self.sut.root);
    }

    fn call(op: &Json) -> Json {
        json!({
            "op": op["op"], "r": op["r"], "c": op["c"],
            "k": op["k"].as_u64().unwrap_or(0),
            "limit": op["limit"].as_i64().unwrap_or(-1)
        })
    }

    fn failed() -> Json {
        json!({ "msgs": [], "at": [], "remaining": 0 })
    }

    async fn exec(&self, op: &Json, base: u64) -> Result<Json, String> {
        let (r, c) = (op["r"].as_u64().unwrap() as usize, op["c"].as_u64().unwrap() as usize);

        match op["op"].as_str().unwrap() {
            "store" => {
                self.sut.store(&self.inbox, r, c, op["k"].as_u64().unwrap()).await?;
                Ok(Self::failed())
            }

            "poll" => {
                let (msgs, at, remaining) = self.sut.poll(&self.inbox, r, c, op["limit"].as_i64().unwrap_or(-1)).await?;
                let at: Vec<_> = at.iter().map(|at| small(at.wrapping_sub(base))).collect();
                Ok(json!({ "msgs": msgs, "at": at, "remaining": small(remaining) }))
            }

            _ => unreachable!()
        }
    }

    fn clone(&self) -> Self {
        Self { inbox: self.inbox.clone(), sut: Sut { sizes: self.sut.sizes.clone(), ..Sut::new(self.sut.seed, &self.sut.root, self.sut.receivers.len(), &self.sut.channels) } }
    }
}

/// Random operations and what else a script about the inbox needs.
pub struct Gen {
    pub rng: Rng,
    pub kind: u64,
    pub receivers: usize,
    pub channels: usize,
    pub huge: bool
}

impl Gen {
    pub fn new(rng: Rng, receivers: usize, channels: usize) -> Self {
        Self { rng, kind: 0, receivers, channels, huge: false }
    }

    pub fn header(&mut self, seed: u64, root: &Path, channels: &[String]) -> Json {
        json!({ "system": "inbox", "seed": seed, "root": root.join("inbox"), "guard": root, "receivers": self.receivers, "channels": channels })
    }

    pub fn store(&mut self, r: usize, c: usize) -> Json {
        // sometimes the very same message again
        let again = self.kind > 0 && self.rng.chance(15);

        if !again {
            self.kind += 1;
        }

        let kind = if again { 1 + self.rng.next() % self.kind } else { self.kind };
        let mut sizes = Rng::new(kind, 5);

        let size = match sizes.below(20) {
            0 => 0,
            1 => 70_000,
            2 if self.huge => 3_000_000,
            _ => sizes.below(400)
        };

        json!({ "op": "store", "r": r, "c": c, "k": kind, "size": size })
    }

    pub fn poll(&mut self, r: usize, c: usize) -> Json {
        let limit = if self.rng.chance(25) { -1 } else { any_limit(&mut self.rng) };
        json!({ "op": "poll", "r": r, "c": c, "limit": limit })
    }

    pub fn op(&mut self, stores: u64) -> Json {
        let (r, c) = (self.rng.range(1, self.receivers), self.rng.range(1, self.channels));
        if self.rng.chance(stores) { self.store(r, c) } else { self.poll(r, c) }
    }

    /// Empty all the queues, twice.
    pub fn drain(&self) -> Vec<Json> {
        let mut ops = Vec::new();

        for _ in 0..2 {
            for r in 1..=self.receivers {
                for c in 1..=self.channels {
                    ops.push(json!({ "op": "poll", "r": r, "c": c, "limit": -1 }));
                }
            }
        }

        ops
    }

    pub fn channel_names(&mut self) -> Vec<String> {
        (0..self.channels).map(|n| format!("{}{n}", self.rng.text(30))).collect()
    }
}

/// Record histories of the inbox for TLC to judge.
pub fn campaign(plan: &Json, seed: u64) -> Json {
    let what = plan["what"].as_str().unwrap();
    let count = plan["count"].as_u64().unwrap();
    let shard = plan["shard"].as_u64().unwrap();
    let number = |name: &str, default: u64| plan[name].as_u64().unwrap_or(default) as usize;
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{what}-{shard}"));
    let mut schedules = 0;
    let mut slow = slow(shard);
    let mut rng = Rng::new(seed, 1000 + shard * 7919);
    let start = std::time::Instant::now();
    let budget = plan["seconds"].as_f64().unwrap_or(1e9);

    for round in 0..count {
        if start.elapsed().as_secs_f64() > budget {
            break;
        }

        let dir = scratch();
        let mut rng = Rng::new(rng.next(), round);

        match what {
            "random" => {
                let (receivers, channels) = (rng.range(1, 3), rng.range(1, 4));
                let mut gen = Gen::new(Rng::new(rng.next(), 1), receivers, channels);
                gen.huge = round == 0;
                let names = gen.channel_names();
                let script = gen.header(world(seed, rng.next()), &dir, &names);
                let mut ops = Vec::new();
                let mut stores = 60;
                let mut processes = Vec::new();
                let in_parts = rng.chance(25);

                for _ in 0..rng.range(1, number("length", 120)) {
                    match rng.below(100) {
                        0..=3 => ops.push(json!({ "op": "restart" })),
                        4..=9 => ops.push(json!({ "op": "tick", "s": any_tick(&mut rng) })),
                        10..=12 => stores = *rng.pick(&[20, 50, 70, 95]),
                        13..=14 if in_parts => processes.push(std::mem::take(&mut ops)),
                        _ => ops.push(gen.op(stores))
                    }
                }

                ops.extend(gen.drain());
                processes.push(ops);

                if in_parts {
                    record_parts(&script, &processes, &mut histories, json!(names));
                } else {
                    record::<InboxSubject>(&set(&script, "ops", json!(processes.concat())), &mut histories, json!(names));
                }
            }

            "long" => {
                let sizes = plan["sizes"].as_array().unwrap();
                let size = sizes[(shard + round * 8) as usize % sizes.len()].as_u64().unwrap() as usize;
                long(seed, &dir, &mut rng, size, plan["big"].as_bool().unwrap_or(false) && shard == 0, &mut histories);
            }

            "names" => names(seed, &dir, &mut rng, &mut histories),

            "crash" | "fault" => {
                let (receivers, channels) = (rng.range(1, 2), rng.range(1, 2));
                let mut gen = Gen::new(Rng::new(rng.next(), 1), receivers, channels);
                let names = gen.channel_names();
                let script = gen.header(world(seed, rng.next()), &dir, &names);
                let mut prefix: Vec<Json> = (0..rng.range(0, number("prefix", 5))).map(|_| gen.op(75)).collect();

                if rng.chance(50) {
                    prefix.push(json!({ "op": "tick", "s": 5 }));
                }

                let victim = if rng.chance(50) {
                    gen.op(100)
                } else {
                    let mut op = gen.op(0);
                    op["limit"] = json!(rng.pick(&[-1, 1, 2, 1_000_000]));
                    op
                };

                let (r, c) = (victim["r"].as_u64().unwrap() as usize, victim["c"].as_u64().unwrap() as usize);
                let mut suffix = Vec::new();

                if what == "fault" {
                    suffix.push(gen.op(50));
                }

                // the same queue goes on
                if rng.chance(50) {
                    suffix.push(gen.store(r, c));
                }

                suffix.push(gen.poll(r, c));

                for _ in 0..rng.range(0, 3) {
                    suffix.push(gen.op(50));
                }

                suffix.push(json!({ "op": "restart" }));
                suffix.extend(gen.drain());

                if what == "crash" {
                    suffix.retain(|op| op["op"] != "restart");
                    record_crashes::<InboxSubject>(&script, &prefix, &victim, &suffix, &mut rng, plan["again"].as_u64().unwrap_or(30), &mut histories);
                } else {
                    record_faults::<InboxSubject>(&script, &prefix, &victim, &suffix, &mut rng, &mut histories);
                }
            }

            "schedule" | "stress" => {
                let free = what == "stress";
                let (receivers, channels) = (rng.range(1, 2), rng.range(1, 2));
                let mut gen = Gen::new(Rng::new(rng.next(), 1), receivers, channels);
                let names = gen.channel_names();
                let script = gen.header(world(seed, rng.next()), &dir, &names);

                let prefix: Vec<Json> = if free { Vec::new() } else { (0..rng.range(0, 3)).map(|_| gen.op(90)).collect() };

                let shape: Vec<usize> = if free {
                    (0..rng.range(2, 4)).map(|_| rng.range(1, 4)).collect()
                } else {
                    rng.pick(&[vec![1, 1], vec![1, 1], vec![2, 1], vec![1, 1, 1], vec![2, 2]]).clone()
                };

                // mostly on one queue, where they meet
                let (r, c) = (rng.range(1, receivers), rng.range(1, channels));

                let threads: Vec<Vec<Json>> = shape.iter().map(|count| (0..*count).map(|_| {
                    let (r, c) = if rng.chance(85) { (r, c) } else { (rng.range(1, receivers), rng.range(1, channels)) };
                    if rng.chance(55) { gen.store(r, c) } else { gen.poll(r, c) }
                }).collect()).collect();

                let suffix = gen.drain();

                if free {
                    record_stress::<InboxSubject>(&script, &threads, &suffix, &mut histories);
                } else {
                    let handles = rng.chance(50);
                    schedules += record_schedules::<InboxSubject>(&script, &prefix, &threads, &suffix, handles, number("bound", 2), number("max", 60), &mut slow, &mut rng, &mut histories);
                }
            }

            _ => unreachable!()
        }

        let _ = std::fs::remove_dir_all(&dir);
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events, "schedules": schedules })
}

fn set(script: &Json, field: &str, value: Json) -> Json {
    let mut script = script.clone();
    script[field] = value;
    script
}

/// Channel names that an implementation could take for something else.
fn odd_names(rng: &mut Rng, storage: &Path, receivers: &[PublicKey]) -> Vec<String> {
    let mut names: Vec<String> = [
        "", "/", "//", ".", "..", "./", "../", "a", "A", "a/", "/a", "./a", "a/.", "a//b", "a/b", "a/../b", "../a", "../../a", "../../../a",
        "b", "index", "index.new", "index.tmp", "INDEX", "index/", "a/index", "b/index", "a/index.new", "..index", ".index", "tmp", "lock",
        "0", "1", "00", "-1", "18446744073709551615", "\0", "a\0", "a\0b", "\0a", " ", "a ", " a", "\t", "\n", "a\n", "%", "%%", "%2F", "%2f", "%00",
        "a%2Fb", "%61", "%2E%2E", "%2E", "\\", "a\\b", "..\\a", "C:\\a", "CON", "nul", "é", "e\u{301}", "ß", "SS", "漢字", "😀", "\u{202e}a", "\u{feff}", "*", "?",
        "a?", "a*", "[a]", "~", "~root", "$HOME", "-", "--", "_", "+", "=", "a=b", "a&b", "<a>", "|", "\"", "'", "`", ";", "#", "a,b", "a:b", "@", "!", "_index", "a_b", "a-b", "a.b", "a b"
    ].iter().map(|name| name.to_string()).collect();

    for receiver in receivers {
        let key = receiver.to_base64();
        names.push(key.clone());

        for name in ["a", "index", ""] {
            names.push(format!("../{key}/{name}"));
        }

        names.push(storage.join(&key).join("a").to_string_lossy().into_owned());
    }

    for path in ["index", "outside", ""] {
        names.push(storage.join(path).to_string_lossy().into_owned());
        names.push(storage.parent().unwrap().join(path).to_string_lossy().into_owned());
    }

    for length in [85, 86, 127, 128, 254, 255, 256, 257, 1000, 5000] {
        names.push("x".repeat(length));
        names.push("X".repeat(length));
        names.push(format!("{}y", "x".repeat(length - 1)));
        names.push("/".repeat(length));
        names.push("é".repeat(length / 2));
    }

    for _ in 0..20 {
        names.push(rng.text(12));
        let (one, other) = (rng.pick(&names).clone(), rng.pick(&names).clone());
        names.push(format!("{one}{}{other}", rng.pick(&["", "/", "\0", "%", "_", "-", "%2F", "."])));
    }

    names
}

/// Files under the folder with their content, without those under the excluded one.
fn tree(dir: &Path, except: &Path, found: &mut Vec<(PathBuf, Vec<u8>)>) {
    for entry in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let path = entry.path();

        if path == except {
            continue;
        }

        if path.is_dir() {
            found.push((path.clone(), Vec::new()));
            tree(&path, except, found);
        } else {
            found.push((path.clone(), std::fs::read(&path).unwrap_or_default()));
        }
    }
}

/// Histories over odd channel names, with other files around that must stay as they are.
fn names(seed: u64, dir: &Path, rng: &mut Rng, histories: &mut Histories) {
    let seed = world(seed, rng.next());
    let storage = dir.join("x").join("y").join("inbox");
    std::fs::create_dir_all(&storage).unwrap();

    let receivers = rng.range(1, 3);
    let keys: Vec<PublicKey> = (0..receivers).map(|n| public(seed, 10_000 + n as u64)).collect();

    // something that looks like stored messages, around the storage
    let mut info = Rng::new(seed, 3);
    let (sender, message) = message_of(seed, 999_999, 10);

    for folder in [dir.to_path_buf(), dir.join("x"), dir.join("x").join("y"), dir.join("a"), dir.join("x").join("a"), dir.join("x").join("y").join("a"), dir.join("x").join("y").join("outside")] {
        let id = info.next();
        std::fs::create_dir_all(&folder).unwrap();
        std::fs::write(folder.join("index"), id.to_be_bytes()).unwrap();
        let message = MessageInfo::new(sender.clone(), "a", message.clone(), 1).to_json().unwrap();
        std::fs::write(folder.join(id.to_string()), message.to_string()).unwrap();
    }

    let mut names = odd_names(rng, &storage, &keys);

    // names like those of files which this implementation makes
    let probe = dir.join("probe");
    let runtime = runtime(1);
    fsgate::guard(dir);

    {
        let mut sut = Sut::new(seed, &probe, receivers, &["a".to_string(), "b".to_string()]);
        sut.sizes.insert(1, 3);
        let inbox = new_inbox(&runtime, &probe);

        for c in [1, 2] {
            let _ = run_as(1, &runtime, sut.store(&inbox, 1, c, 1));
        }

        let mut files = Vec::new();
        tree(&probe, Path::new(""), &mut files);

        for (path, _) in files {
            let relative = path.strip_prefix(&probe).unwrap().to_string_lossy().into_owned();
            let name = path.file_name().unwrap().to_string_lossy().into_owned();
            names.extend([format!("a/{name}"), format!("../{relative}"), relative, name.clone(), name.to_lowercase(), name.to_uppercase(), format!("/{name}")]);
        }
    }

    let _ = std::fs::remove_dir_all(&probe);

    names.sort();
    names.dedup();
    rng.shuffle(&mut names);

    let mut before = Vec::new();
    tree(dir, &storage, &mut before);

    // all the names, twelve at a time, in one storage
    let mut kinds = 0;

    for group in names.chunks(12) {
        let mut gen = Gen::new(Rng::new(rng.next(), 9), receivers, group.len());
        gen.kind = kinds;
        let mut ops = Vec::new();

        for c in 1..=group.len() {
            for r in 1..=receivers {
                ops.push(gen.store(r, c));

                if rng.chance(30) {
                    ops.push(gen.store(r, c));
                }
            }
        }

        rng.shuffle(&mut ops);

        for _ in 0..rng.range(3, 15) {
            let op = gen.op(40);
            let at = rng.below(ops.len() + 1);
            ops.insert(at, op);
        }

        if rng.chance(50) {
            ops.push(json!({ "op": "restart" }));
        }

        let mut drain = gen.drain();
        rng.shuffle(&mut drain);
        ops.extend(drain);
        ops.extend(gen.drain());
        kinds = gen.kind;

        let mut script = gen.header(seed, dir, group);
        script["root"] = json!(storage);
        script["ops"] = json!(ops);

        let mut events = Vec::new();
        crate::script::run::<InboxSubject>(&script, origin(), |event| events.push(event));

        let mut after = Vec::new();
        tree(dir, &storage, &mut after);

        if after != before {
            let differing: Vec<_> = after.iter().filter(|file| !before.contains(file)).chain(before.iter().filter(|file| !after.contains(file)))
                .map(|(path, _)| path.to_string_lossy().into_owned()).collect();
            events.push(json!({ "e": "outside", "what": differing }));
            before = after;
        }

        crate::script::link(&mut events);
        histories.add(events, json!(group));
    }
}

/// Histories with long queues and large messages. Runs of stores are recorded as one
/// `fill` event, with the bounds on the times of each one.
fn long(seed: u64, dir: &Path, rng: &mut Rng, size: usize, big: bool, histories: &mut Histories) {
    fsgate::guard(dir);
    let mut gen = Gen::new(Rng::new(rng.next(), 9), 1, 2);
    let names = gen.channel_names();
    let root = dir.join("inbox");
    let mut sut = Sut::new(seed, &root, 1, &names);
    let runtime = runtime(1);
    let inbox = new_inbox(&runtime, &root);
    let base = origin();

    let known: Vec<(Sender, Message)> = (1..=40).map(|kind| {
        let size = if big && kind % 10 == 0 { 40_000_000 } else { Rng::new(kind, 6).below(60) };
        sut.sizes.insert(kind, size);
        message_of(seed, kind, size)
    }).collect();

    let mut events = Vec::new();
    let mut stored = [0; 2];
    fsgate::set_mode(Mode::Count);

    let mut full = false;

    while !full {
        let c = if rng.chance(80) { 1 } else { 2 };
        let count = if c == 1 { rng.range(1, (size / 2).max(2)) } else { rng.range(1, 300) };
        let count = if big { count.min(45) } else { count };
        let (mut ks, mut from, mut to) = (Vec::new(), Vec::new(), Vec::new());
        watch(|| format!("storing {count} messages"));

        let stored_all = run_as(1, &runtime, async {
            for _ in 0..count {
                let kind = 1 + rng.below(known.len());
                let (sender, message) = known[kind - 1].clone();
                ks.push(kind);
                from.push(now().wrapping_sub(base));
                inbox.add_message(sender, sut.receivers[0].clone(), names[c - 1].clone(), message).await.map_err(|err| err.to_string())?;
                to.push(now().wrapping_sub(base));
            }

            Ok(())
        }).and_then(|result: Result<(), String>| result);

        unwatch();

        if let Err(err) = stored_all {
            events.push(json!({ "e": "broken fill", "what": err }));
            break;
        }

        stored[c - 1] += count;
        events.push(json!({ "e": "fill", "r": 1, "c": c, "ks": ks, "from": from, "to": to }));

        if rng.chance(20) {
            advance_clock(3);
        }

        full = stored[0] >= size;

        if full || rng.chance(20) {
            let left = stored[0];
            let limits = [0, 1, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 4096, left as i64 - 1, left as i64, left as i64 + 1, left as i64 / 2, 1_000_001, 1_000_004, -1];

            for _ in 0..(if full { 3 } else { 1 }) {
                let mut limit = *rng.pick(&limits);

                // it has to be full once
                if !full {
                    limit = limit.clamp(0, left as i64 / 10);
                }

                let op = json!({ "op": "poll", "r": 1, "c": 1, "limit": limit });
                poll_now(&sut, &inbox, &runtime, &op, base, &mut stored, &mut events);
            }
        }
    }

    for c in [1, 1, 2, 2] {
        poll_now(&sut, &inbox, &runtime, &json!({ "op": "poll", "r": 1, "c": c, "limit": -1 }), base, &mut stored, &mut events);
    }

    fsgate::set_mode(Mode::Off);
    link(&mut events);
    histories.add(events, json!({ "size": size, "names": names }));
}

fn poll_now(sut: &Sut, inbox: &StoredQueueMessagesInbox, runtime: &tokio::runtime::Runtime, op: &Json, base: u64, stored: &mut [usize; 2], events: &mut Vec<Json>) {
    let c = op["c"].as_u64().unwrap() as usize;
    events.push(json!({ "e": "call", "op": "poll", "r": 1, "c": c, "k": 0, "limit": op["limit"], "t": now().wrapping_sub(base), "rl": 0 }));
    watch(|| op.to_string());
    let result = run_as(1, runtime, sut.poll(inbox, 1, c, op["limit"].as_i64().unwrap())).and_then(|result| result);
    unwatch();

    match result {
        Ok((msgs, at, remaining)) => {
            stored[c - 1] -= msgs.len().min(stored[c - 1]);
            let at: Vec<_> = at.iter().map(|at| small(at.wrapping_sub(base))).collect();
            events.push(json!({ "e": "ret", "ok": true, "fault": false, "t": now().wrapping_sub(base), "msgs": msgs, "at": at, "remaining": small(remaining) }));
        }

        Err(err) => events.push(json!({ "e": "ret", "ok": false, "fault": false, "t": now().wrapping_sub(base), "msgs": [], "at": [], "remaining": 0, "what": err }))
    }
}
