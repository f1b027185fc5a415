//! Seeded randomness, scratch folders, reporting and watching over steps.

use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

use hyperborealib::exports::rand_chacha::rand_core::SeedableRng;
use hyperborealib::exports::rand_chacha::ChaCha20Rng;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, salt: u64) -> Self {
        let mut rng = Self(seed ^ salt.wrapping_mul(0xD1342543DE82EF95));
        rng.next();
        rng
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, bound: usize) -> usize {
        (self.next() % bound as u64) as usize
    }

    pub fn range(&mut self, from: usize, to: usize) -> usize {
        from + self.below(to - from + 1)
    }

    pub fn chance(&mut self, percent: u64) -> bool {
        self.next() % 100 < percent
    }

    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        &from[self.below(from.len())]
    }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut bytes = Vec::with_capacity(len + 8);

        while bytes.len() < len {
            bytes.extend_from_slice(&self.next().to_le_bytes());
        }

        bytes.truncate(len);
        bytes
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            items.swap(i, self.below(i + 1));
        }
    }

    /// Any text: from plain to what no one expects in it.
    pub fn text(&mut self, max: usize) -> String {
        const PIECES: &[&str] = &[
            "a", "B", "0", " ", "/", "\\", "\"", "'", "\0", "\n", "\r", "\t", "\u{1}", "\u{7f}", "\u{80}", "é",
            "ß", "\u{2028}", "漢", "😀", "\u{fffd}", "\u{feff}", "{", "}", "[", "]", ":", ",", "null", "..", "%", "%2F", "&", "<", "=", "+"
        ];

        let len = self.range(0, max);
        let mut text = String::new();

        while text.len() < len {
            if self.chance(60) {
                text.push((b'a' + self.below(26) as u8) as char);
            } else {
                text.push_str(self.pick(PIECES));
            }
        }

        text
    }

    /// An address, or another text which someone may want to tidy up. Two of them differ if `v` does.
    pub fn named(&mut self, max: usize, v: u64) -> String {
        let text = self.text(max);

        match self.below(20) {
            0 => format!("{text}{v}/"),
            1 => format!(" {v}{text} "),
            2 => format!("http://Node{v}.Example:80/"),
            3 => format!("HTTPS://node{v}.example:443/{text}?q=1#f"),
            4 => format!("[::1]:{v}"),
            5 => format!("{v}//"),
            6 => format!("node{v}.example."),
            7 => format!("user:pass@{v}"),
            8 => format!("{v}%2f%00"),
            9 => format!("/{v}\n"),
            10 => format!("NODE{v}"),
            11 => format!("\u{feff}e\u{301}{v}"),
            12 => format!("127.0.0.1:0{v}"),
            13 if v == 1 => String::new(),
            14 => format!("{v}{}", "x".repeat(300)),
            _ => format!("{text}{v}")
        }
    }

    /// Any number, with a bias for the edges of the range.
    pub fn number(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - 1,
            4 => 1 << 63,
            5 => self.next() >> 32,
            6 => (1 << 53) + 1,
            _ => self.next()
        }
    }
}

/// Keys whose public keys have the first 48 bits in common (three pairs), or the last 40.
const TWINS: [(&str, &str); 6] = [
    ("09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca048a0ca84", "09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eda048a469d8"),
    ("09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eea048a0ddd1", "09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca0489b3c92"),
    ("09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eea0489d971f", "09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eea0489ccd48"),
    ("09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eda0489bfa6e", "09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca0489d5625"),
    ("09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca04897c794", "09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca048a2e668"),
    ("09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca0489a9e9b", "09bedff7f4f251aaf9703e58326479ad989c1e947b9644204fb8eca0489b37e5")
];

#[derive(Clone, Copy, PartialEq)]
enum Relation {
    None,
    /// The negative of the key before: their public keys have the same x coordinate.
    Negative,
    Twin(usize)
}

/// What a key has to do with the one before it.
fn relation(seed: u64, n: u64) -> Relation {
    let place = n % 10_000;

    // Every kind of world has numbers of its own, which begin at 10 000 or a multiple of it.
    if place >= 60 || !(10_000..100_000).contains(&n) {
        return Relation::None;
    }

    match Rng::new(seed, 40_000 + n).below(100) {
        0 ..= 14 => Relation::Negative,
        15 ..= 34 if place % 2 == 1 && place < 12 => Relation::Twin(place as usize / 2),
        _ => Relation::None
    }
}

fn key_of(text: &str) -> SecretKey {
    let bytes: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap()).collect();
    SecretKey::deserialize(bytes).unwrap()
}

pub fn negative(key: &SecretKey) -> SecretKey {
    let negative = -*hyperborealib::exports::k256::SecretKey::from_slice(&key.serialize()).unwrap().to_nonzero_scalar();
    SecretKey::deserialize(negative.to_bytes()).unwrap()
}

/// The n-th key of this seed. Some of them are easily taken for each other.
pub fn key(seed: u64, n: u64) -> SecretKey {
    match (relation(seed, n), relation(seed, n + 1)) {
        (Relation::Twin(pair), _) => key_of(TWINS[pair].1),
        (_, Relation::Twin(pair)) => key_of(TWINS[pair].0),
        (Relation::Negative, _) => negative(&lone_key(seed, n - 1)),
        _ => lone_key(seed, n)
    }
}

/// The n-th key of this seed, without relations.
pub fn lone_key(seed: u64, n: u64) -> SecretKey {
    SecretKey::random_from(&mut ChaCha20Rng::seed_from_u64(seed.wrapping_mul(1_000_003) ^ n.wrapping_mul(0x9E3779B97F4A7C15)))
}

/// One of the seeds, so that different keys have to do with each other.
pub fn world(seed: u64, number: u64) -> u64 {
    seed.wrapping_mul(100) + number % 40
}

/// Public keys of this seed are costly to calculate, so they're kept.
pub fn public(seed: u64, n: u64) -> PublicKey {
    static KNOWN: Mutex<BTreeMap<(u64, u64), PublicKey>> = Mutex::new(BTreeMap::new());

    if let Some(key) = KNOWN.lock().unwrap().get(&(seed, n)) {
        return key.clone();
    }

    let key = key(seed, n).public_key();
    KNOWN.lock().unwrap().insert((seed, n), key.clone());
    key
}

pub fn any_info(rng: &mut Rng) -> ClientInfo {
    let client_type = *rng.pick(&[ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File]);
    ClientInfo::new(client_type, if rng.chance(50) { Some(rng.text(30)) } else { None })
}

/// Certificate with arbitrary content and a signature that isn't one.
pub fn any_certificate(rng: &mut Rng, server: PublicKey) -> ConnectionCertificate {
    let len = *rng.pick(&[0, 1, 64, 64, 64, 70, 200]);

    ConnectionCertificate {
        token: ConnectionToken::new(rng.number(), server),
        sign: rng.bytes(len)
    }
}

pub fn any_client(seed: u64, rng: &mut Rng) -> Client {
    let server = public(seed, 900 + rng.next() % 5);
    Client::new(public(seed, 910 + rng.next() % 5), any_certificate(rng, server), any_info(rng))
}

pub fn any_server(seed: u64, rng: &mut Rng) -> Server {
    let v = rng.next() % 1000;
    Server::new(public(seed, 900 + rng.next() % 5), rng.named(40, v))
}

pub fn any_encoding(rng: &mut Rng) -> MessageEncoding {
    MessageEncoding::new(
        Encoding::Base64,
        *rng.pick(&[Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305]),
        *rng.pick(&[Compression::None, Compression::Deflate, Compression::Brotli])
    )
}

// ---------------------------------------------------------------- clock

static CLOCK_SHIFT: AtomicI64 = AtomicI64::new(0);

/// Move the wall clock, as seen by this process, by this many seconds.
pub fn advance_clock(seconds: i64) {
    CLOCK_SHIFT.fetch_add(seconds, SeqCst);
}

pub fn clock_shift() -> i64 {
    CLOCK_SHIFT.load(SeqCst)
}

/// What the times of a history count from: far enough in the past for the clock to be set back.
pub fn origin() -> u64 {
    now() - 300_000_000
}

/// Seconds by which a wall clock may be moved.
pub fn any_tick(rng: &mut Rng) -> i64 {
    let seconds = *rng.pick(&[1, 2, 60, 100_000, 3_000_000, 40_000_000]);

    // it is set back, too, as long as it isn't far back
    if rng.chance(35) && clock_shift() > -200_000_000 { -seconds } else { seconds }
}

pub fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, time: *mut libc::timespec) -> libc::c_int {
    let result = libc::syscall(libc::SYS_clock_gettime, clock as libc::c_long, time) as libc::c_int;

    if result == 0 && (clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE) {
        (*time).tv_sec += CLOCK_SHIFT.load(SeqCst);
    } else if result == 0 && clock == libc::CLOCK_MONOTONIC {
        (*time).tv_sec += LINGERED.get();
    }

    result
}

thread_local! {
    /// Seconds that passed for this thread without passing really.
    static LINGERED: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

/// Time that passes really.
pub fn elapsed() -> Duration {
    let mut time = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as libc::c_long, &mut time); }
    Duration::new(time.tv_sec as u64, time.tv_nsec as u32)
}

// -------------------------------------------------------------- scratch

static NEXT_DIR: AtomicU64 = AtomicU64::new(0);
static BASE: Mutex<Option<PathBuf>> = Mutex::new(None);

/// Root of scratch folders of this process, removed by `run.py`.
pub fn set_base(base: &Path) {
    *BASE.lock().unwrap() = Some(base.to_path_buf());
}

pub fn scratch() -> PathBuf {
    let base = BASE.lock().unwrap().clone().expect("scratch base");
    let dir = base.join(format!("{}-{}", std::process::id(), NEXT_DIR.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

// -------------------------------------------------------------- reports

/// What a step is doing now, for the report about it if it never ends.
static WATCHED: Mutex<Option<(Duration, String)>> = Mutex::new(None);
static OUTPUT: Mutex<Option<PathBuf>> = Mutex::new(None);

pub fn start_watch(output: &Path, limit: Duration) {
    *OUTPUT.lock().unwrap() = Some(output.to_path_buf());

    std::panic::set_hook(Box::new(|_| ()));

    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));

        let overdue = match &*WATCHED.lock().unwrap() {
            Some((since, what)) if elapsed() - *since > limit => Some(what.clone()),
            _ => None
        };

        if let Some(what) = overdue {
            finish(json!({ "failure": { "kind": "hang", "what": what } }));
        }
    });
}

pub fn finish(mut result: Json) -> ! {
    let escapes = crate::fsgate::escapes();

    if !escapes.is_empty() && result.get("failure").is_none() {
        result["failure"] = json!({ "kind": "change outside of the storage folder", "what": escapes });
    }

    let path = OUTPUT.lock().unwrap().clone().expect("output");
    let temp = path.with_extension("tmp");
    std::fs::File::create(&temp).unwrap().write_all(result.to_string().as_bytes()).unwrap();
    std::fs::rename(temp, path).unwrap();
    unsafe { libc::_exit(0) }
}

pub fn watch(what: impl FnOnce() -> String) {
    *WATCHED.lock().unwrap() = Some((elapsed(), what()));
}

pub fn unwatch() {
    *WATCHED.lock().unwrap() = None;
}

pub fn panic_text(panic: Box<dyn std::any::Any + Send>) -> String {
    panic.downcast_ref::<String>().cloned()
        .or_else(|| panic.downcast_ref::<&str>().map(|text| text.to_string()))
        .unwrap_or_else(|| String::from("?"))
}

/// Run code under test: a panic is its result, too.
pub fn guarded<T>(code: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(code)).map_err(|panic| format!("panic: {}", panic_text(panic)))
}

/// Runtime with its threads accounted to the given operation.
pub fn runtime(op: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .max_blocking_threads(4)
        .enable_all()
        .on_thread_start(move || crate::fsgate::OP.with(|current| current.set(op)))
        .build()
        .unwrap()
}

thread_local! {
    static SLOW: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) };
}

/// A runtime like others where time is only waited for as far as the runtime knows:
/// what `linger` takes of it takes none really.
pub fn unhurried(op: usize, seed: u64) -> tokio::runtime::Runtime {
    SLOW.with(|slow| *slow.borrow_mut() = Some(Rng::new(seed, 91)));

    tokio::runtime::Builder::new_current_thread()
        .max_blocking_threads(4)
        .enable_all()
        .start_paused(true)
        .on_thread_start(move || crate::fsgate::OP.with(|current| current.set(op)))
        .build()
        .unwrap()
}

/// Others may take their time to answer, where that costs none.
pub async fn linger() {
    let seconds = SLOW.with(|slow| slow.borrow_mut().as_mut().map_or(0.0, |rng| {
        if rng.chance(12) { *rng.pick(&[0.05, 2.0, 7.0, 35.0, 100.0, 1000.0]) } else { 0.0 }
    }));

    if seconds > 0.0 {
        tokio::time::sleep(Duration::from_secs_f64(seconds)).await;
        LINGERED.set(LINGERED.get() + seconds as i64);
    }
}

/// Run a future of the code under test on behalf of the given operation.
pub fn run_as<F: std::future::Future>(op: usize, runtime: &tokio::runtime::Runtime, future: F) -> Result<F::Output, String> {
    let before = crate::fsgate::OP.with(|current| current.replace(op));
    let result = guarded(|| runtime.block_on(future));
    crate::fsgate::OP.with(|current| current.set(before));
    result
}

pub fn read_json(path: &str) -> Json {
    serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap()
}

/// Limits of polls beyond any queue; in histories they're 1 000 000 and their number.
const LARGE: [u64; 8] = [u64::MAX, 1 << 32, (1 << 32) + 1, 1 << 63, i64::MAX as u64, u32::MAX as u64, 1 << 31, (1 << 48) + 2];

pub fn limit_of(code: i64) -> Option<u64> {
    match code {
        -1 => None,
        code if code >= 1_000_000 => Some(LARGE[(code - 1_000_000) as usize]),
        code => Some(code as u64)
    }
}

pub fn any_limit(rng: &mut Rng) -> i64 {
    match rng.below(10) {
        0 => 1_000_000 + rng.below(LARGE.len()) as i64,
        1..=2 => 0,
        3..=5 => 1,
        6..=7 => 2,
        8 => 3,
        _ => *rng.pick(&[5, 100, 256, 65_536])
    }
}
