//! Scripts of operations on the storage drivers, executed here or in a child
//! process that can die, recorded as the events of a history.

use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::sync::Arc;

use serde_json::{json, Value as Json};
use tokio::runtime::Runtime;

use crate::fsgate::{self, Kind, Mode, CTL};
use crate::sched::{self, Explorer, Log};
use crate::util::*;

/// A storage driver under test.
#[allow(async_fn_in_trait)]
pub trait Subject: Send + Sync + 'static {
    fn new(script: &Json, runtime: &Runtime) -> Self;
    fn reopen(&mut self, runtime: &Runtime);
    /// Fields of the call event.
    fn call(op: &Json) -> Json;
    /// Fields of the return event of a failed operation.
    fn failed() -> Json;
    /// Fields of the return event.
    async fn exec(&self, op: &Json, base: u64) -> Result<Json, String>;
    /// Another handle to the same storage.
    fn clone(&self) -> Self;
}

/// All the operations of the script, and those which its history had before it.
pub fn all_ops(script: &Json) -> Vec<&Json> {
    let mut ops = Vec::new();

    for part in ["known", "ops", "threads"] {
        for op in script[part].as_array().into_iter().flatten() {
            match op {
                Json::Array(thread) => ops.extend(thread),
                op => ops.push(op)
            }
        }
    }

    ops
}

/// TLC's integers are 32 bit.
pub fn small(number: u64) -> i64 {
    if number < 1_000_000_000 { number as i64 } else { -7 }
}

fn merge(mut event: Json, fields: Json) -> Json {
    for (name, value) in fields.as_object().unwrap() {
        event[name] = value.clone();
    }

    event
}

fn result_event<S: Subject>(result: Result<Result<Json, String>, String>, fault: bool, base: u64) -> Json {
    match result {
        Ok(Ok(fields)) => merge(json!({ "e": "ret", "ok": true, "fault": fault, "t": small(now().wrapping_sub(base)) }), fields),
        Ok(Err(err)) => merge(json!({ "e": "ret", "ok": false, "fault": fault, "t": small(now().wrapping_sub(base)), "what": err }), S::failed()),
        Err(panic) => merge(json!({ "e": "panic", "ok": false, "fault": fault, "t": small(now().wrapping_sub(base)), "what": panic }), S::failed())
    }
}

/// Run a script and record what happens as events.
///
/// Ops are those of the subject, `restart` and `tick` (s). An operation can have
/// `fault`: { at, errno, torn, rest } and `crash`: { at, torn }, after which there's nothing.
pub fn run<S: Subject>(script: &Json, base: u64, mut emit: impl FnMut(Json)) {
    let runtime = runtime(1);
    fsgate::set_mode(Mode::Off);
    let mut subject = S::new(script, &runtime);

    for op in script["ops"].as_array().unwrap() {
        match op["op"].as_str().unwrap() {
            "restart" => {
                subject.reopen(&runtime);
                emit(json!({ "e": "restart" }));
                continue;
            }

            "tick" => {
                advance_clock(op["s"].as_i64().unwrap());
                continue;
            }

            _ => ()
        }

        emit(merge(json!({ "e": "call", "rl": 0, "t": small(now().wrapping_sub(base)) }), S::call(op)));
        watch(|| op.to_string());

        let number = |of: &str, name: &str| op[of][name].as_u64().unwrap_or(0) as usize;
        let faulty = op.get("fault").is_some_and(|fault| !fault.is_null());
        let rest = op["fault"]["rest"] == true;

        CTL.lock().unwrap().keep_log = script["log"] == true;

        fsgate::set_mode(if faulty {
            let errno = number("fault", "errno") as i32;

            if rest {
                Mode::FailFrom { at: number("fault", "at"), errno }
            } else {
                Mode::Fail { at: number("fault", "at"), errno, torn: number("fault", "torn") }
            }
        } else if op.get("crash").is_some_and(|crash| !crash.is_null()) {
            Mode::Crash { at: number("crash", "at"), torn: number("crash", "torn") }
        } else {
            Mode::Count
        });

        let result = run_as(1, &runtime, subject.exec(op, base));

        let (calls, changes) = fsgate::counts();

        let kinds: Vec<_> = CTL.lock().unwrap().log.iter().map(|(_, kind, _)| match kind {
            Kind::Write => 2,
            kind if kind.mutates() => 1,
            _ => 0
        }).collect();

        fsgate::set_mode(Mode::Off);

        let fault = faulty && if rest { changes } else { calls } >= number("fault", "at");
        let mut event = result_event::<S>(result, fault, base);

        if script["log"] == true {
            event["kinds"] = json!(kinds);
        }

        emit(event);
        unwatch();
    }
}

/// Link calls with their returns in a history of operations that don't overlap.
pub fn link(events: &mut [Json]) {
    let mut open = None;

    for i in 0..events.len() {
        match events[i]["e"].as_str().unwrap() {
            "call" => {
                events[i]["rl"] = json!(0);
                open = Some(i);
            }

            "ret" | "panic" => {
                let call = open.take().unwrap();
                events[call]["rl"] = json!(i + 1);
                events[i]["cl"] = json!(call + 1);
            }

            "crash" => open = None,

            _ => ()
        }
    }
}

fn set(script: &Json, fields: Json) -> Json {
    merge(script.clone(), fields)
}

/// Run the script in a child process; returns whether it died where it was told to.
pub fn run_in_child(script: &Json, base: u64, events: &mut Vec<Json>) -> Result<bool, String> {
    let path = Path::new(script["guard"].as_str().unwrap()).with_extension("script");
    std::fs::write(&path, set(script, json!({ "base": base, "shift": clock_shift() })).to_string()).unwrap();

    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .arg(&path)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .unwrap();

    for line in BufReader::new(child.stdout.take().unwrap()).lines() {
        let line = line.unwrap();

        match serde_json::from_str(&line) {
            Ok(event) => events.push(event),
            Err(_) => return Err(format!("child said: {line}"))
        }
    }

    match child.wait().unwrap().code() {
        Some(0) => Ok(false),
        Some(77) => Ok(true),
        status => Err(format!("child ended with {status:?}"))
    }
}

/// What the child process does.
pub fn child(script: &Json, run: impl FnOnce(&Json, u64, &mut dyn FnMut(Json))) -> ! {
    fsgate::guard(Path::new(script["guard"].as_str().unwrap()));
    advance_clock(script["shift"].as_i64().unwrap_or(0));

    let mut emit = |event: Json| {
        let mut line = event.to_string();
        line.push('\n');
        let mut out = std::io::stdout().lock();
        out.write_all(line.as_bytes()).unwrap();
        out.flush().unwrap();
    };

    run(script, script["base"].as_u64().unwrap(), &mut emit);

    let escapes = fsgate::escapes();

    if !escapes.is_empty() {
        emit(json!({ "e": "outside", "what": escapes }));
    }

    unsafe { libc::_exit(0) }
}

/// Collects recorded histories into a file for TLC.
pub struct Histories {
    pub count: usize,
    pub events: usize,
    /// What else TLC is told about histories.
    pub header: Json,
    out: std::io::BufWriter<std::fs::File>,
    prefix: String
}

impl Histories {
    pub fn new(path: &str, prefix: String) -> Self {
        Self { count: 0, events: 0, header: json!({}), out: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), prefix }
    }

    pub fn add(&mut self, mut events: Vec<Json>, about: Json) {
        let escapes = fsgate::take_escapes();

        if !escapes.is_empty() {
            events.push(json!({ "e": "outside", "what": escapes }));
        }

        self.count += 1;
        self.events += events.len();
        let line = merge(json!({ "id": format!("{}-{}", self.prefix, self.count), "events": events, "about": about.to_string() }), self.header.clone()).to_string();
        self.out.write_all(line.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }

    pub fn finish(mut self) -> (usize, usize) {
        self.out.flush().unwrap();
        (self.count, self.events)
    }
}

/// One script in this process.
pub fn record<S: Subject>(script: &Json, histories: &mut Histories, about: Json) {
    let mut events = Vec::new();
    fsgate::guard(Path::new(script["guard"].as_str().unwrap()));
    run::<S>(script, origin(), |event| events.push(event));
    link(&mut events);
    histories.add(events, about);
}

/// A script cut into parts, each in a process of its own.
pub fn record_parts(script: &Json, parts: &[Vec<Json>], histories: &mut Histories, about: Json) {
    let mut events = Vec::new();
    let base = origin();
    let known: Vec<Json> = parts.iter().flatten().cloned().collect();

    for part in parts {
        if let Err(err) = run_in_child(&set(script, json!({ "ops": part, "known": known })), base, &mut events) {
            events.push(json!({ "e": "died", "what": err }));
            break;
        }

        events.push(json!({ "e": "restart" }));
    }

    link(&mut events);
    histories.add(events, about);
}

fn with(op: &Json, field: &str, value: Json) -> Json {
    let mut op = op.clone();
    op[field] = value;
    op
}

/// The victim dies at each of its changes of the storage (and, for a part of
/// these, the first operation after it dies again), then the suffix is run.
pub fn record_crashes<S: Subject>(script: &Json, prefix: &[Json], victim: &Json, suffix: &[Json], rng: &mut Rng, again: u64, histories: &mut Histories) {
    let known: Vec<Json> = prefix.iter().chain([victim]).chain(suffix).cloned().collect();
    let base_dir = Path::new(script["guard"].as_str().unwrap()).to_path_buf();
    let mut run_number = 0;

    let mut fresh = || {
        run_number += 1;
        let guard = base_dir.join(format!("run{run_number}"));
        std::fs::create_dir_all(&guard).unwrap();
        set(script, json!({ "guard": guard, "root": guard.join("storage"), "known": known }))
    };

    // how many changes there are
    let mut ops = prefix.to_vec();
    ops.push(victim.clone());
    let mut events = Vec::new();
    let script = fresh();

    if let Err(err) = run_in_child(&set(&script, json!({ "ops": ops, "log": true })), origin(), &mut events) {
        events.push(json!({ "e": "died", "what": err }));
        histories.add(events, json!("dry run"));
        return;
    }

    let kinds: Vec<u64> = match events.last() {
        Some(last) if last["e"] == "ret" => last["kinds"].as_array().unwrap().iter().map(|kind| kind.as_u64().unwrap()).filter(|kind| *kind > 0).collect(),
        _ => {
            link(&mut events);
            histories.add(events, json!("dry run"));
            return;
        }
    };

    for (number, kind) in kinds.iter().enumerate() {
        let torn = if *kind == 2 { vec![0, 1 + rng.below(15), 16] } else { vec![0] };

        for torn in torn {
            let script = fresh();
            let base = origin();
            let crash = json!({ "at": number + 1, "torn": torn });
            let mut ops = prefix.to_vec();
            ops.push(with(victim, "crash", crash.clone()));

            let mut events = Vec::new();

            let part = |ops: &[Json], events: &mut Vec<Json>| {
                match run_in_child(&set(&script, json!({ "ops": ops })), base, events) {
                    Ok(true) => events.push(json!({ "e": "crash" })),
                    Ok(false) => events.push(json!({ "e": "restart" })),
                    Err(err) => events.push(json!({ "e": "died", "what": err }))
                }
            };

            part(&ops, &mut events);

            let mut second = Json::Null;
            let mut rest = suffix;

            if !suffix.is_empty() && rng.chance(again) {
                second = json!({ "at": rng.range(1, 6), "torn": rng.below(17) });
                part(&[with(&suffix[0], "crash", second.clone())], &mut events);
                rest = &suffix[1..];
            }

            fsgate::guard(Path::new(script["guard"].as_str().unwrap()));
            run::<S>(&set(&script, json!({ "ops": rest })), base, |event| events.push(event));
            link(&mut events);
            histories.add(events, json!({ "crash": crash, "second": second }));
            std::fs::remove_dir_all(script["guard"].as_str().unwrap()).unwrap();
        }
    }
}

/// Each storage call of the victim fails, or all its changes from one on and those of
/// some operations after it; then the suffix is run.
pub fn record_faults<S: Subject>(script: &Json, prefix: &[Json], victim: &Json, suffix: &[Json], rng: &mut Rng, histories: &mut Histories) {
    let base_dir = Path::new(script["guard"].as_str().unwrap()).to_path_buf();
    let mut run_number = 0;

    let mut record_one = |ops: Vec<Json>, log: bool, about: Json, histories: &mut Histories| {
        run_number += 1;
        let guard = base_dir.join(format!("run{run_number}"));
        std::fs::create_dir_all(&guard).unwrap();
        let script = set(script, json!({ "guard": guard, "root": guard.join("storage"), "ops": ops, "log": log }));
        fsgate::guard(&guard);
        let mut events = Vec::new();
        run::<S>(&script, origin(), |event| events.push(event));

        let kinds: Vec<u64> = events.get(2 * prefix.iter().filter(|op| op["op"] != "tick").count() + 1)
            .and_then(|event| event["kinds"].as_array())
            .map(|kinds| kinds.iter().map(|kind| kind.as_u64().unwrap()).collect())
            .unwrap_or_default();

        link(&mut events);
        histories.add(events, about);
        std::fs::remove_dir_all(&guard).unwrap();
        kinds
    };

    let mut ops = prefix.to_vec();
    ops.push(victim.clone());

    let kinds = record_one(ops, true, json!("dry run"), histories);

    let errors = [libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::EROFS, libc::EDQUOT];

    for (number, kind) in kinds.iter().enumerate() {
        let mut faults = vec![json!({ "at": number + 1, "errno": rng.pick(&errors), "torn": 0 })];

        if *kind == 2 {
            faults.push(json!({ "at": number + 1, "errno": libc::ENOSPC, "torn": 1 + rng.below(15) }));
        }

        if *kind > 0 {
            let changes = kinds[..=number].iter().filter(|kind| **kind > 0).count();
            faults.push(json!({ "at": changes, "errno": libc::ENOSPC, "rest": true }));
        }

        for fault in faults {
            let mut ops = prefix.to_vec();
            ops.push(with(victim, "fault", fault.clone()));

            for (number, op) in suffix.iter().enumerate() {
                if fault["rest"] == true && number == 0 {
                    ops.push(with(op, "fault", json!({ "at": 1, "errno": libc::ENOSPC, "rest": true })));
                } else {
                    ops.push(op.clone());
                }
            }

            record_one(ops, false, json!({ "fault": fault }), histories);
        }
    }
}

/// Threads of operations in all the schedules of their storage calls, up to the bounds.
/// `handles`: every thread opens the storage on its own instead of sharing one handle.
#[allow(clippy::too_many_arguments)]
pub fn record_schedules<S: Subject>(script: &Json, prefix: &[Json], threads: &[Vec<Json>], suffix: &[Json], handles: bool, bound: usize, max: usize, slow: &mut Vec<f64>, rng: &mut Rng, histories: &mut Histories) -> usize {
    let base_dir = Path::new(script["guard"].as_str().unwrap()).to_path_buf();
    let mut explorer = Explorer::new(bound);
    let mut schedules = 0;

    while let Some(choices) = explorer.next() {
        schedules += 1;

        if schedules > max {
            break;
        }

        let guard = base_dir.join(format!("run{schedules}"));
        std::fs::create_dir_all(&guard).unwrap();
        fsgate::guard(&guard);

        let base = origin();
        let script = set(script, json!({ "guard": guard, "root": guard.join("storage"), "threads": threads, "known": suffix }));
        let mut events = Vec::new();
        run::<S>(&set(&script, json!({ "ops": prefix })), base, |event| events.push(event));
        link(&mut events);

        let offset = events.len();
        let log = Log::default();
        *log.0.lock().unwrap() = events;

        let runtime = runtime(0);
        let script = set(&script, json!({ "ops": prefix }));
        let first = Arc::new(S::new(&script, &runtime));
        watch(|| json!({ "threads": threads, "choices": choices }).to_string());

        let work = threads.iter().map(|ops| {
            let subject = if handles { Arc::new(S::new(&script, &runtime)) } else { first.clone() };
            let (ops, log) = (ops.clone(), log.clone());

            let work: sched::Work = Box::new(move |runtime| {
                for (number, op) in ops.iter().enumerate() {
                    if number > 0 {
                        sched::pause();
                    }

                    let call = log.call(merge(json!({ "t": small(now().wrapping_sub(base)) }), S::call(op)));
                    let result = guarded(|| runtime.block_on(subject.exec(op, base)));
                    log.ret(call, result_event::<S>(result, false, base));
                }
            });

            work
        }).collect();

        let outcome = sched::run(work, &choices, |_, blocked| {
            // storage may take its time while others wait for their turn
            if blocked > 0 && rng.chance(3) {
                if let Some(seconds) = slow.pop() {
                    std::thread::sleep(std::time::Duration::from_secs_f64(seconds));
                }
            }
        });
        explorer.learn(&choices, &outcome);
        explorer.thin(rng, 20_000);

        let mut events = log.take();

        if outcome.hang {
            events.push(json!({ "e": "hang" }));
        }

        let schedule: Vec<usize> = outcome.decisions.iter().map(|(_, choice)| *choice).collect();
        let hung = outcome.hang;

        if !hung {
            let mut rest = Vec::new();
            run::<S>(&set(&script, json!({ "ops": suffix, "known": ([prefix, &threads.concat()].concat()) })), base, |event| rest.push(event));
            link(&mut rest);

            // the numbers of events go on
            let shift = events.len();

            for event in &mut rest {
                for field in ["rl", "cl"] {
                    if event[field].as_u64().is_some_and(|at| at > 0) {
                        event[field] = json!(event[field].as_u64().unwrap() as usize + shift);
                    }
                }
            }

            events.extend(rest);
        }

        let _ = offset;
        histories.add(events, json!({ "schedule": schedule, "handles": handles }));
        unwatch();

        if hung {
            break;
        }

        std::fs::remove_dir_all(&guard).unwrap();
    }

    schedules
}

/// How long storage takes to perform some operation while others wait: seconds, once each.
pub fn slow(shard: u64) -> Vec<f64> {
    let mut slow = vec![[2.5, 4.0, 6.0, 11.0][shard as usize % 4], 1.1, 0.3, 0.1, 0.1];
    slow.reverse();
    slow
}

/// Threads of operations that run freely.
pub fn record_stress<S: Subject>(script: &Json, threads: &[Vec<Json>], suffix: &[Json], histories: &mut Histories) {
    fsgate::guard(Path::new(script["guard"].as_str().unwrap()));
    let base = origin();
    let script = set(script, json!({ "threads": threads, "known": suffix, "ops": [] }));
    let log = Log::default();

    watch(|| json!({ "threads": threads }).to_string());

    let runtime = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .enable_all()
        .on_thread_start(|| fsgate::OP.with(|current| current.set(1)))
        .build().unwrap();

    let first = {
        let single = crate::util::runtime(1);
        S::new(&script, &single)
    };

    let threads: Vec<_> = threads.iter().enumerate().map(|(number, ops)| {
        let subject = if number % 2 == 0 { Subject::clone(&first) } else { S::new(&script, &crate::util::runtime(1)) };
        let (ops, log, handle) = (ops.clone(), log.clone(), runtime.handle().clone());

        std::thread::spawn(move || {
            fsgate::OP.with(|current| current.set(1));

            for op in &ops {
                let call = log.call(merge(json!({ "t": small(now().wrapping_sub(base)) }), S::call(op)));
                let result = guarded(|| handle.block_on(subject.exec(op, base)));
                log.ret(call, result_event::<S>(result, false, base));
            }
        })
    }).collect();

    for thread in threads {
        let _ = thread.join();
    }

    let mut events = log.take();
    let shift = events.len();
    let mut rest = Vec::new();
    run::<S>(&set(&script, json!({ "ops": suffix })), base, |event| rest.push(event));
    link(&mut rest);

    for event in &mut rest {
        for field in ["rl", "cl"] {
            if event[field].as_u64().is_some_and(|at| at > 0) {
                event[field] = json!(event[field].as_u64().unwrap() as usize + shift);
            }
        }
    }

    events.extend(rest);
    histories.add(events, json!("stress"));
    unwatch();
    runtime.shutdown_background();
}
