//! Deterministic schedules of overlapping operations: every storage call of a
//! tracked thread waits until the scheduler grants it.

use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value as Json};

use crate::fsgate::{self, Mode, CHANGED, CTL, OP};
use crate::util::*;

/// Events of a history in the order in which they happened.
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<Json>>>);

impl Log {
    pub fn push(&self, event: Json) -> usize {
        let mut events = self.0.lock().unwrap();
        events.push(event);
        events.len()
    }

    pub fn call(&self, mut event: Json) -> usize {
        event["e"] = json!("call");
        event["rl"] = json!(0);
        self.push(event)
    }

    pub fn ret(&self, call: usize, mut event: Json) {
        let mut events = self.0.lock().unwrap();
        event["cl"] = json!(call);
        events.push(event);
        let at = events.len();
        events[call - 1]["rl"] = json!(at);
    }

    pub fn take(&self) -> Vec<Json> {
        std::mem::take(&mut self.0.lock().unwrap())
    }
}

static TIDS: Mutex<Vec<Vec<i32>>> = Mutex::new(Vec::new());

fn register(op: usize) {
    let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
    TIDS.lock().unwrap()[op].push(tid);
}

/// Whether all the threads of the operation sleep.
fn sleeping(op: usize) -> bool {
    let tids = TIDS.lock().unwrap()[op].clone();

    tids.iter().all(|tid| match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(stat) => stat.rsplit(')').next().is_some_and(|rest| rest.trim_start().starts_with('S')),
        Err(_) => true
    })
}

/// One thread of operations; it gets its runtime and what reports an operation's start.
pub type Work = Box<dyn FnOnce(&tokio::runtime::Runtime) + Send>;

pub struct Outcome {
    /// For every decision: threads that could go on, the one that did.
    pub decisions: Vec<(Vec<usize>, usize)>,
    pub hang: bool
}

/// Wait to be granted at a point which is no storage call: the start of an operation.
pub fn pause() {
    let op = OP.with(std::cell::Cell::get);
    let mut ctl = CTL.lock().unwrap();

    if ctl.mode != Mode::Schedule {
        return;
    }

    ctl.waiting[op] += 1;
    CHANGED.notify_all();

    while !ctl.granted[op] && ctl.mode == Mode::Schedule {
        ctl = CHANGED.wait(ctl).unwrap();
    }

    ctl.granted[op] = false;
    ctl.waiting[op] -= 1;
}

/// Run the threads, following the given choices and then the defaults. `at_step` gets to
/// know the number of every decision and how many threads are blocked by others then.
/// `stop_after`: after this many decisions call `stop` with the lock of nothing held.
pub fn run(work: Vec<Work>, choices: &[usize], mut at_step: impl FnMut(usize, usize)) -> Outcome {
    let count = work.len();
    let done = Arc::new(Mutex::new(vec![false; count + 1]));

    {
        let mut ctl = CTL.lock().unwrap();
        ctl.waiting = vec![0; count + 1];
        ctl.granted = vec![false; count + 1];
        *TIDS.lock().unwrap() = vec![Vec::new(); count + 1];
    }

    fsgate::set_mode(Mode::Schedule);

    let mut threads = Vec::new();

    for (number, work) in work.into_iter().enumerate() {
        let op = number + 1;
        let done = done.clone();

        threads.push(std::thread::spawn(move || {
            register(op);
            OP.with(|current| current.set(op));

            let runtime = tokio::runtime::Builder::new_current_thread()
                .max_blocking_threads(2)
                .thread_keep_alive(Duration::from_secs(600))
                .enable_all()
                .on_thread_start(move || {
                    OP.with(|current| current.set(op));
                    register(op);
                })
                .build().unwrap();

            pause();

            let _ = guarded(|| work(&runtime));

            {
                let _ctl = CTL.lock().unwrap();
                done.lock().unwrap()[op] = true;
                CHANGED.notify_all();
            }

            runtime.shutdown_background();
        }));
    }

    let mut decisions = Vec::new();
    let mut last = 0;
    let mut hang = false;

    'schedule: loop {
        // wait until every thread is at a point, done or blocked
        let mut stable = 0;
        let mut idle_since = None;

        let (ready, blocked) = loop {
            let (ready, busy) = {
                let mut ctl = CTL.lock().unwrap();
                let finished = done.lock().unwrap().clone();

                let state = |ctl: &fsgate::Ctl| {
                    let ready: Vec<usize> = (1..=count).filter(|op| ctl.waiting[*op] > 0 && !ctl.granted[*op]).collect();
                    let busy: Vec<usize> = (1..=count).filter(|op| !finished[*op] && !(ctl.waiting[*op] > 0 && !ctl.granted[*op])).collect();
                    (ready, busy)
                };

                let mut now = state(&ctl);

                if !now.1.is_empty() && stable == 0 {
                    ctl = CHANGED.wait_timeout(ctl, Duration::from_micros(200)).unwrap().0;
                    now = state(&ctl);
                }

                if finished[1..].iter().all(|done| *done) {
                    break 'schedule;
                }

                now
            };

            if busy.is_empty() {
                break (ready, 0);
            }

            if busy.iter().all(|op| sleeping(*op)) {
                stable += 1;

                if stable >= 4 && !ready.is_empty() {
                    // did anything reach a point meanwhile?
                    let ctl = CTL.lock().unwrap();
                    let again: Vec<usize> = (1..=count).filter(|op| ctl.waiting[*op] > 0 && !ctl.granted[*op]).collect();
                    if again == ready {
                        break (ready, busy.len());
                    }
                }

                if stable >= 4 && ready.is_empty() {
                    let since = idle_since.get_or_insert_with(Instant::now);

                    if since.elapsed() > Duration::from_secs(10) {
                        hang = true;
                        break 'schedule;
                    }

                    stable = 0;
                }

                std::thread::sleep(Duration::from_micros(80));
            } else {
                stable = 0;
                std::thread::yield_now();
            }
        };

        let step = decisions.len();
        at_step(step, blocked);

        let choice = match choices.get(step) {
            Some(choice) if ready.contains(choice) => *choice,
            _ if ready.contains(&last) => last,
            _ => ready[0]
        };

        decisions.push((ready, choice));
        last = choice;

        let mut ctl = CTL.lock().unwrap();
        ctl.granted[choice] = true;
        CHANGED.notify_all();
    }

    fsgate::set_mode(Mode::Off);

    if !hang {
        for thread in threads {
            let _ = thread.join();
        }
    }

    Outcome { decisions, hang }
}

/// Choices of the next schedule, depth first, with a bound on preemptions
/// (switches away from a thread that could have gone on).
pub struct Explorer {
    stack: Vec<Vec<usize>>,
    bound: usize
}

impl Explorer {
    pub fn new(bound: usize) -> Self {
        Self { stack: vec![Vec::new()], bound }
    }

    pub fn next(&mut self) -> Option<Vec<usize>> {
        self.stack.pop()
    }

    /// Learn what could have been chosen differently.
    pub fn learn(&mut self, prefix: &[usize], outcome: &Outcome) {
        let decisions = &outcome.decisions;
        let mut preemptions = 0;
        let mut last = 0;

        for (step, (ready, choice)) in decisions.iter().enumerate() {
            if step >= prefix.len() {
                for other in ready {
                    let costs = usize::from(ready.contains(&last) && *other != last);

                    if other != choice && preemptions + costs <= self.bound {
                        let mut next: Vec<usize> = decisions[..step].iter().map(|(_, choice)| *choice).collect();
                        next.push(*other);
                        self.stack.push(next);
                    }
                }
            }

            if ready.contains(&last) && *choice != last {
                preemptions += 1;
            }

            last = *choice;
        }
    }

    /// Keep a part of what remains if there's too much of it.
    pub fn thin(&mut self, rng: &mut Rng, keep: usize) {
        while self.stack.len() > keep {
            let victim = rng.below(self.stack.len());
            self.stack.swap_remove(victim);
        }
    }
}
