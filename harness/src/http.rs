//! The bundled HTTP server and client over loopback sockets.

use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::{AsJson, AsJsonError};
use serde_json::{json, Value as Json};
use tokio::sync::oneshot;

use crate::script::Histories;
use crate::util::*;

/// How long anything may take that takes no time at all.
const SOON: Duration = Duration::from_secs(15);

/// Loopback addresses of this process, none of them used twice. Ports somebody listens on at every address are left alone.
pub fn fresh_address() -> SocketAddr {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let pid = std::process::id();

    loop {
        let port = 12_000 + (NEXT.fetch_add(1, SeqCst) % 20_000) as u16;

        let taken = ["/proc/net/tcp", "/proc/net/tcp6"].iter().filter_map(|path| std::fs::read_to_string(path).ok())
            .any(|sockets| sockets.contains(&format!("00000000:{port:04X} ")));

        if !taken {
            return SocketAddr::from(([127, 64 + (pid >> 16) as u8 % 64, (pid >> 8) as u8, pid as u8], port));
        }
    }
}

fn digest(json: &Json) -> String {
    // FNV-1a of the text, whose names are in order
    let hash = json.to_string().bytes().fold(0xcbf29ce484222325_u64, |hash, byte| (hash ^ byte as u64).wrapping_mul(0x100000001b3));
    format!("{hash:016x}")
}

/// Values of the handlers: objects with an id. They read null, too, which nobody sends,
/// so that nothing at all can't pass for it unnoticed.
#[derive(Debug, Clone, PartialEq)]
struct Note(Json);

impl AsJson for Note {
    fn to_json(&self) -> Result<Json, AsJsonError> {
        if self.0.get("id").and_then(Json::as_u64).is_some() { Ok(self.0.clone()) } else { Err(AsJsonError::FieldNotFound("id")) }
    }

    fn from_json(json: &Json) -> Result<Self, AsJsonError> {
        if json.get("id").and_then(Json::as_u64).is_some() || json.is_null() { Ok(Self(json.clone())) } else { Err(AsJsonError::FieldNotFound("id")) }
    }
}

fn any_json(rng: &mut Rng, depth: usize) -> Json {
    match rng.below(if depth == 0 { 7 } else { 10 }) {
        0 => json!(null),
        1 => json!(rng.chance(50)),
        2 => json!(rng.number()),
        3 => json!(i64::MIN + (rng.next() >> 2) as i64),
        4 => json!(rng.below(10000) as f64 / 8.0),
        5 | 6 => json!(rng.text(40)),
        7 => { let len = rng.below(5); (0..len).map(|_| any_json(rng, depth - 1)).collect() }
        _ => { let len = rng.below(5); Json::Object((0..len).map(|_| (rng.text(8), any_json(rng, depth - 1))).collect()) }
    }
}

fn any_note(rng: &mut Rng, id: u64) -> Json {
    let mut deep = json!(1);

    if rng.chance(5) {
        for _ in 0..100 {
            deep = json!([deep]);
        }
    }

    let size = *rng.pick(&[0, 0, 0, 10, 1000, 70_000]);
    json!({ "id": id, "data": any_json(rng, 4), "deep": deep, "long": rng.text(size) })
}

/// Nearly as large as a request may be.
fn enlarge(rng: &mut Rng, note: &mut Json) {
    let size = *rng.pick(&[300_000, 600_000, 1_000_000, 1_500_000, 1_900_000]);
    note["data"] = json!("data".repeat(rng.range(size / 5, size / 4)));
    note["long"] = json!("");
}

/// The same JSON written differently: with spaces and escapes.
fn written(rng: &mut Rng, json: &Json) -> String {
    match rng.below(3) {
        0 => json.to_string(),
        1 => serde_json::to_string_pretty(json).unwrap(),

        _ => {
            let mut text = String::from(" \r\n\t");

            // outside of ASCII there are only strings
            for c in json.to_string().chars() {
                if c.is_ascii() {
                    text.push(c);
                } else {
                    for unit in c.encode_utf16(&mut [0; 2]) {
                        text.push_str(&format!("\\u{unit:04x}"));
                    }
                }
            }

            text + "\n\n "
        }
    }
}

fn junk(rng: &mut Rng, id: u64) -> Vec<u8> {
    let good = any_note(rng, id).to_string();

    match rng.below(24) {
        11 => [b"\xef\xbb\xbf".as_slice(), good.as_bytes()].concat(),
        12 => good.encode_utf16().flat_map(|unit| unit.to_le_bytes()).collect(),
        13 => format!("\0{good}").into_bytes(),
        14 => format!("{good}\0").into_bytes(),
        15 => format!("{good};").into_bytes(),
        16 => format!("// note\n{good}").into_bytes(),
        17 => format!("{},}}", &good[..good.len() - 1]).into_bytes(),
        18 => format!("{{\"id\":0{id}}}").into_bytes(),
        19 => format!("{{\"id\":+{id}}}").into_bytes(),
        20 => format!("{{id:{id}}}").into_bytes(),
        21 => format!("{good},{good}").into_bytes(),
        22 => format!("\u{a0}{good}").into_bytes(),
        0 => b"{".to_vec(),
        1 => good.as_bytes()[..good.len() - 1].to_vec(),
        2 => (good + "}").into_bytes(),
        3 => (good.clone() + &good).into_bytes(),
        4 => vec![0xff, 0xfe, b'{', b'}'],
        5 => { let mut bytes = good.into_bytes(); bytes.extend([0xc3, 0x28]); bytes }
        6 => format!("{{\"id\":{id},\"data\":\"{}\"}}", "\u{1}").into_bytes(),
        7 => b"NaN".to_vec(),
        8 => "[".repeat(50_000).into_bytes(),
        9 => format!("{{'id':{id}}}").into_bytes(),
        10 => [b"{\"id\":".as_slice(), id.to_string().as_bytes(), b",\"data\":\"", &[0x80], b"\"}"].concat(),
        _ => { let len = rng.range(1, 100); let mut bytes = rng.bytes(len); bytes[0] = b'?'; bytes }
    }
}

fn misshaped(rng: &mut Rng, id: u64) -> Json {
    rng.pick(&[
        json!({}), json!([]), json!(false), json!("id"), json!(id), json!([{ "id": id }]), json!({ "Id": id }), json!({ "id": -1 }), json!({ "id": id.to_string() }),
        json!({ "id": null }), json!({ "id": [id] }), json!({ "id": 1.5 }), json!({ "data": { "id": id } })
    ]).clone()
}

// ------------------------------------------------------------------ server

enum Outcome { Answer(Json), Unwritable, Panic }

#[derive(Default)]
struct Desk {
    events: Vec<Json>,
    /// Handlers that have begun, by the port of the requester, and are waiting.
    waiting: HashMap<u64, (u64, oneshot::Sender<Outcome>)>,
    runs: u64,
    /// Handlers answer by themselves.
    free: Option<Rng>
}

#[derive(Clone, Default)]
struct Shared(Arc<(Mutex<Desk>, Condvar)>);

impl Shared {
    fn lock(&self) -> std::sync::MutexGuard<'_, Desk> {
        self.0.0.lock().unwrap_or_else(|poisoned| poisoned.into_inner())
    }

    fn push(&self, event: Json) {
        self.lock().events.push(event);
    }

    /// Whether the handler has begun that waits for this requester.
    fn reached(&self, port: u64) -> bool {
        self.lock().waiting.contains_key(&port)
    }

    async fn handle(self, handler: &'static str, port: u16, body: Option<Json>) -> Note {
        let (sender, receiver) = oneshot::channel();
        let (mut decision, run);

        {
            let mut desk = self.lock();
            desk.runs += 1;
            run = desk.runs;
            desk.events.push(json!({ "e": "reach", "t": run, "handler": handler, "body": body.as_ref().map(digest).unwrap_or_default(), "port": port }));

            decision = desk.free.as_mut().map(|rng| (decide(rng, run), rng.below(4)));

            if decision.is_none() {
                desk.waiting.insert(port as u64, (run, sender));
            }

            self.0.1.notify_all();
        }

        let outcome = match decision.take() {
            None => receiver.await.unwrap_or(Outcome::Unwritable),

            Some((outcome, pause)) => {
                if pause == 1 {
                    tokio::task::yield_now().await;
                } else if pause > 1 {
                    tokio::time::sleep(Duration::from_micros(400 * pause as u64)).await;
                }

                self.push(reply(run, &outcome));
                outcome
            }
        };

        match outcome {
            Outcome::Answer(answer) => Note(answer),
            Outcome::Unwritable => Note(json!({ "id": "none" })),
            Outcome::Panic => panic!("handler panics")
        }
    }
}

fn decide(rng: &mut Rng, run: u64) -> Outcome {
    match rng.below(12) {
        0 => Outcome::Panic,
        1 => Outcome::Unwritable,
        _ => {
            let mut answer = any_note(rng, run);

            if rng.chance(3) {
                answer["data"] = json!("answer ".repeat(rng.range(40_000, 700_000)));
            }

            Outcome::Answer(answer)
        }
    }
}

fn reply(run: u64, outcome: &Outcome) -> Json {
    match outcome {
        Outcome::Answer(answer) => json!({ "e": "reply", "t": run, "outcome": "answer", "answer": digest(answer) }),
        Outcome::Unwritable => json!({ "e": "reply", "t": run, "outcome": "unwritable", "answer": "" }),
        Outcome::Panic => json!({ "e": "reply", "t": run, "outcome": "panic", "answer": "" })
    }
}

/// A server that runs until it's dropped.
pub struct Running {
    pub address: SocketAddr,
    stop: Option<oneshot::Sender<()>>,
    thread: Option<std::thread::JoinHandle<()>>
}

impl Running {
    /// Starts a server, on a thread of its own: whatever it's made of may not be left.
    pub fn start<F>(serve: impl FnOnce(SocketAddr) -> F + Send + 'static) -> Result<Self, String>
    where
        F: std::future::Future<Output = Result<(), String>>
    {
        let address = fresh_address();
        let (stop, stopped) = oneshot::channel();
        let failed = Arc::new(Mutex::new(None));
        let failure = failed.clone();

        let thread = std::thread::spawn(move || {
            let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(3).max_blocking_threads(4).enable_all().build().unwrap();

            runtime.block_on(async move {
                tokio::select! {
                    result = serve(address) => *failure.lock().unwrap() = Some(format!("{result:?}")),
                    _ = stopped => ()
                }
            });

            runtime.shutdown_timeout(Duration::from_millis(200));
        });

        let running = Self { address, stop: Some(stop), thread: Some(thread) };
        let start = Instant::now();

        while start.elapsed() < SOON {
            if let Some(reason) = failed.lock().unwrap().take() {
                return Err(reason);
            }

            if TcpStream::connect_timeout(&address, SOON).is_ok() {
                return Ok(running);
            }

            std::thread::sleep(Duration::from_millis(1));
        }

        Err(String::from("the server doesn't start"))
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        drop(self.stop.take());

        if let Some(thread) = self.thread.take() {
            let _ = thread.join();
        }
    }
}

const PATHS: [(&str, &str); 3] = [("get", "/notes/get"), ("post", "/notes/post"), ("both", "/notes")];

fn path_of(rng: &mut Rng, route: &str) -> String {
    match PATHS.iter().find(|(name, _)| *name == route) {
        Some((_, path)) => format!("{path}{}", rng.pick(&["", "", "", "?", "?a=1&b=/notes/post"])),
        None => rng.pick(&["/", "/note", "/notes/", "/notes/get/", "/notes/gett", "/Notes", "/notes/GET", "//notes", "/notes/post/notes", "/x/notes", "/?/notes", "/notes/../notes/none", "/notes%00"]).to_string()
    }
}

fn serve_notes(desk: Shared) -> Result<Running, String> {
    Running::start(move |address| async move {
        let mut server = AxumHttpServer::default();

        for (handler, route) in [("GET get", 0), ("GET both", 2)] {
            let desk = desk.clone();
            server.get(PATHS[route].1, move |from: SocketAddr| desk.handle(handler, from.port(), None)).await;
        }

        for (handler, route) in [("POST post", 1), ("POST both", 2)] {
            let desk = desk.clone();
            server.post::<Note, Note, _>(PATHS[route].1, move |from: SocketAddr, note: Note| desk.handle(handler, from.port(), Some(note.0))).await;
        }

        server.serve(address).await.map_err(|err| err.to_string())
    })
}

// ------------------------------------------------------------------ raw client

struct Connection {
    stream: TcpStream,
    port: u64,
    rest: Vec<u8>
}

/// What came back: status and body.
type Came = Result<(u16, Vec<u8>), String>;

impl Connection {
    fn open(address: SocketAddr) -> Result<Self, String> {
        let stream = TcpStream::connect_timeout(&address, SOON).map_err(|err| err.to_string())?;
        stream.set_nodelay(true).unwrap();
        stream.set_read_timeout(Some(SOON)).unwrap();
        stream.set_write_timeout(Some(SOON)).unwrap();
        Ok(Self { port: stream.local_addr().map_err(|err| err.to_string())?.port() as u64, stream, rest: Vec::new() })
    }

    /// A server that refuses a request may not want to have the rest of it.
    fn send(&mut self, bytes: &[u8]) {
        let _ = self.stream.write_all(bytes);
    }

    /// Whether there's something to read, or the end.
    fn ready(&mut self) -> bool {
        self.stream.set_nonblocking(true).unwrap();
        let ready = !matches!(self.stream.peek(&mut [0; 1]), Err(err) if err.kind() == std::io::ErrorKind::WouldBlock);
        self.stream.set_nonblocking(false).unwrap();
        ready || !self.rest.is_empty()
    }

    fn more(&mut self) -> Result<(), String> {
        let mut buffer = [0; 65536];

        match self.stream.read(&mut buffer) {
            Ok(0) => Err(String::from("closed")),
            Ok(count) => { self.rest.extend_from_slice(&buffer[..count]); Ok(()) }
            Err(err) if [std::io::ErrorKind::WouldBlock, std::io::ErrorKind::TimedOut].contains(&err.kind()) => Err(String::from("stuck")),
            Err(err) => Err(format!("closed: {err}"))
        }
    }

    fn take(&mut self, count: usize) -> Result<Vec<u8>, String> {
        while self.rest.len() < count {
            self.more()?;
        }

        Ok(self.rest.drain(..count).collect())
    }

    fn line(&mut self) -> Result<String, String> {
        loop {
            if let Some(end) = self.rest.windows(2).position(|pair| pair == b"\r\n") {
                let line = self.take(end + 2)?;
                return String::from_utf8(line[..end].to_vec()).map_err(|_| String::from("no text"));
            }

            self.more()?;
        }
    }

    /// Headers and body, of an answer or of a request.
    fn message(&mut self, bodiless: bool) -> Result<(String, Vec<u8>), String> {
        let start = self.line()?;
        let (mut length, mut chunked) = (None, false);

        loop {
            let line = self.line()?.to_ascii_lowercase();

            if line.is_empty() {
                break;
            }

            let (name, value) = line.split_once(':').ok_or("header")?;

            match name {
                "content-length" => length = Some(value.trim().parse::<usize>().map_err(|_| "length")?),
                "transfer-encoding" => chunked = value.contains("chunked"),
                _ => ()
            }
        }

        if bodiless {
            return Ok((start, Vec::new()));
        }

        if chunked {
            let mut body = Vec::new();

            loop {
                let size = usize::from_str_radix(self.line()?.trim(), 16).map_err(|_| "chunk")?;
                body.extend(self.take(size)?);
                self.line()?;

                if size == 0 {
                    return Ok((start, body));
                }
            }
        }

        let body = self.take(length.unwrap_or(0))?;
        Ok((start, body))
    }

    fn answer(&mut self, bodiless: bool) -> Came {
        let (start, body) = self.message(bodiless)?;
        let status = start.split(' ').nth(1).and_then(|status| status.parse().ok()).ok_or("status")?;
        Ok((status, body))
    }
}

/// The event of what came back, and whether the connection can be used again.
fn received(i: u64, came: Came) -> (Json, bool) {
    let event = |result: &str, answer: String| json!({ "e": "receive", "i": i, "result": result, "answer": answer });

    match came {
        Ok((status, body)) if status < 300 => match serde_json::from_slice::<Json>(&body) {
            Ok(answer) => (event("answer", digest(&answer)), true),
            Err(_) if body.is_empty() => (event("empty", String::new()), true),
            Err(_) => (event("no JSON", String::new()), true)
        },

        // the body of a refused request may not have been read: such connections are closed
        Ok((status, body)) if status >= 400 => {
            let mut event = event("error", String::new());
            event["reason"] = json!(format!("{status} {}", String::from_utf8_lossy(&body)));
            (event, false)
        }

        Ok((status, _)) => (event(&format!("status {status}"), String::new()), false),
        Err(reason) if reason == "stuck" => (event("stuck", String::new()), false),
        Err(reason) => { let mut event = event("error", String::new()); event["reason"] = json!(reason); (event, false) }
    }
}

struct Sent {
    i: u64,
    head: bool,
    /// Whether there's a body that no one has to read.
    ignored: bool
}

fn ignored(kind: &Json) -> bool {
    kind["method"] != "POST" && kind["content"] != "none"
}

/// Bytes of a request, and the digest of its body.
fn request(rng: &mut Rng, address: SocketAddr, kind: &Json, i: u64) -> (Vec<u8>, String, usize) {
    let (method, route, content) = (kind["method"].as_str().unwrap(), kind["route"].as_str().unwrap(), kind["content"].as_str().unwrap());
    let mut about = String::new();

    let body: Option<Vec<u8>> = match content {
        "none" => None,

        // no one reads these: they have to fit
        _ if method != "POST" => Some(rng.pick(&[json!({ "id": i }).to_string(), String::from("{"), String::from("[1]")]).clone().into_bytes()),

        "valid" => {
            let mut note = any_note(rng, i);

            if rng.chance(5) {
                enlarge(rng, &mut note);
            }

            about = digest(&note);
            Some(written(rng, &note).into_bytes())
        }

        "shape" => { let shape = misshaped(rng, i); Some(written(rng, &shape).into_bytes()) }
        "junk" => Some(junk(rng, i)),

        _ => {
            let note = json!({ "id": i, "long": "long ".repeat(rng.range(300_000, 900_000)) });
            about = digest(&note);
            Some(note.to_string().into_bytes())
        }
    };

    let mut text = format!("{method} {} HTTP/1.1\r\nhost: {}\r\n", path_of(rng, route), rng.pick(&[address.to_string(), String::from("example.org")]));

    if rng.chance(50) {
        text += rng.pick(&["content-type: application/json\r\n", "Content-Type: text/plain; charset=latin1\r\n", "content-type: application/x-www-form-urlencoded\r\n", "Accept: text/html\r\nX-Other: {\"id\":1}\r\n"]);
    }

    let mut bytes = text.into_bytes();

    match body {
        None if method == "POST" => bytes.extend(b"content-length: 0\r\n\r\n"),
        None => bytes.extend(b"\r\n"),

        Some(body) if rng.chance(25) => {
            bytes.extend(b"transfer-encoding: chunked\r\n\r\n");
            let size = *rng.pick(&[7, 1000, 100_000]);
            let size = size.max(body.len() / 20);

            for chunk in body.chunks(size) {
                bytes.extend(format!("{:x}\r\n", chunk.len()).bytes());
                bytes.extend(chunk);
                bytes.extend(b"\r\n");
            }

            bytes.extend(b"0\r\n\r\n");
        }

        Some(body) => {
            bytes.extend(format!("content-length: {}\r\n\r\n", body.len()).bytes());
            bytes.extend(body);
        }
    }

    // what is sent later is a part of the body
    let end = bytes.windows(4).position(|part| part == b"\r\n\r\n").unwrap() + 4;
    let part = if bytes.len() > end + 1 { rng.range(end, bytes.len() - 1) } else { bytes.len() - 1 };
    (bytes, about, part)
}

fn send(connection: &mut Connection, rng: &mut Rng, bytes: &[u8]) {
    if rng.chance(15) {
        let piece = (bytes.len() / 5).max(1);

        for piece in bytes.chunks(piece) {
            connection.send(piece);
            std::thread::sleep(Duration::from_micros(300));
        }
    } else {
        connection.send(bytes);
    }
}

struct Slot {
    connection: Option<Connection>,
    sent: Option<Sent>,
    rest: Vec<u8>
}

/// One after the other, what the specification has two connections do.
struct Walker<'a> {
    desk: Shared,
    server: Running,
    slots: [Slot; 2],
    rng: &'a mut Rng,
    next: u64
}

impl Walker<'_> {
    fn port(&self, slot: usize) -> u64 {
        self.slots[slot].connection.as_ref().map_or(0, |connection| connection.port)
    }

    fn receive(&mut self, slot: usize) {
        let slot = &mut self.slots[slot];

        let (Some(connection), Some(sent)) = (&mut slot.connection, slot.sent.take()) else { return };
        let (event, usable) = received(sent.i, connection.answer(sent.head));
        self.desk.push(event);

        if !usable || sent.ignored || !connection.rest.is_empty() || self.rng.chance(20) {
            slot.connection = None;
        }
    }

    /// Waits until the request has reached a handler or is answered.
    fn settle(&mut self, slot: usize) {
        let start = Instant::now();

        loop {
            if self.desk.reached(self.port(slot)) {
                return;
            }

            if self.slots[slot].connection.as_mut().is_some_and(Connection::ready) {
                return self.receive(slot);
            }

            if start.elapsed() > SOON {
                self.slots[slot].sent = None;
                self.slots[slot].connection = None;
                return self.desk.push(json!({ "e": "stuck" }));
            }

            if start.elapsed() > Duration::from_millis(1) {
                std::thread::sleep(Duration::from_micros(100));
            } else {
                std::thread::yield_now();
            }
        }
    }

    fn respond(&mut self, slot: usize, outcome: &str) {
        let port = self.port(slot);
        let Some((run, sender)) = self.desk.lock().waiting.remove(&port) else { return };

        let outcome = match outcome {
            "answer" => Outcome::Answer(any_note(self.rng, run)),
            "unwritable" => Outcome::Unwritable,
            _ => Outcome::Panic
        };

        self.desk.push(reply(run, &outcome));
        let _ = sender.send(outcome);
        self.receive(slot);
    }

    /// Whatever there is, is over after this.
    fn clear(&mut self, slot: usize) {
        if self.slots[slot].sent.is_some() {
            if self.desk.reached(self.port(slot)) {
                return self.respond(slot, "answer");
            }

            self.give_up(slot);
        }
    }

    fn give_up(&mut self, slot: usize) {
        let port = self.port(slot);
        self.slots[slot].connection = None;

        if let Some(sent) = self.slots[slot].sent.take() {
            let mut desk = self.desk.lock();
            desk.waiting.remove(&port);
            desk.events.push(json!({ "e": "drop", "i": sent.i }));
        }
    }

    fn step(&mut self, op: &Json) {
        let slot = op["slot"].as_u64().unwrap() as usize - 1;
        let kind = &op["kind"];

        match op["name"].as_str().unwrap() {
            name @ ("send" | "stall") => {
                self.clear(slot);

                if self.slots[slot].connection.is_none() {
                    self.slots[slot].connection = Connection::open(self.server.address).ok();
                }

                if self.slots[slot].connection.is_none() {
                    return self.desk.push(json!({ "e": "no connection" }));
                }

                self.next += 1;
                let i = self.next;
                let (bytes, about, part) = request(self.rng, self.server.address, kind, i);
                let all = name == "send";
                self.desk.push(json!({ "e": "send", "i": i, "kind": kind, "body": about, "far": if all { "all" } else { "part" }, "port": self.port(slot) }));
                let connection = self.slots[slot].connection.as_mut().unwrap();
                let sent = if all { &bytes[..] } else { &bytes[..part] };
                send(connection, self.rng, sent);
                self.slots[slot].sent = Some(Sent { i, head: kind["method"] == "HEAD", ignored: ignored(kind) });
                self.slots[slot].rest = if all { Vec::new() } else { bytes[part..].to_vec() };

                if all {
                    self.settle(slot);

                    // requests that may be refused are over at once in the specification
                    if op["reached"] == false && self.slots[slot].sent.is_some() {
                        self.respond(slot, "answer");
                    }
                }
            }

            "rest" => {
                let rest = std::mem::take(&mut self.slots[slot].rest);

                if let (Some(sent), Some(connection)) = (&self.slots[slot].sent, &mut self.slots[slot].connection) {
                    self.desk.push(json!({ "e": "rest", "i": sent.i }));
                    connection.send(&rest);
                    self.settle(slot);
                }
            }

            "finish" => self.respond(slot, op["outcome"].as_str().unwrap()),
            "drop" => self.give_up(slot),
            name => panic!("unknown step {name}")
        }
    }
}

fn walk(ops: &[Json], rng: &mut Rng, histories: &mut Histories) {
    let desk = Shared::default();

    let server = match serve_notes(desk.clone()) {
        Ok(server) => server,
        Err(reason) => return histories.add(vec![json!({ "e": "serve", "can": true, "started": false, "reason": reason })], json!("start"))
    };

    let slot = || Slot { connection: None, sent: None, rest: Vec::new() };
    let mut walker = Walker { desk: desk.clone(), server, slots: [slot(), slot()], rng, next: 0 };

    for (number, op) in ops.iter().enumerate() {
        watch(|| format!("step {number}: {op}"));
        walker.step(op);

        if desk.lock().events.last().is_some_and(|event| ["stuck", "no connection"].contains(&event["e"].as_str().unwrap())) {
            break;
        }
    }

    walker.clear(0);
    walker.clear(1);
    desk.push(json!({ "e": "end" }));
    let events = std::mem::take(&mut desk.lock().events);
    histories.add(events, json!({ "steps": ops.len() }));
}

/// Many at once, some of them through the library's client.
fn free(rng: &mut Rng, kinds: &[Json], histories: &mut Histories) {
    let desk = Shared::default();
    desk.lock().free = Some(Rng::new(rng.next(), 1));

    let server = match serve_notes(desk.clone()) {
        Ok(server) => server,
        Err(reason) => return histories.add(vec![json!({ "e": "serve", "can": true, "started": false, "reason": reason })], json!("start"))
    };

    let address = server.address;
    let client = ReqwestHttpClient::default();
    let next = Arc::new(AtomicU64::new(0));
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let count = rng.range(2, 12);

    let event = |i: u64, method: &str, route: &str, content: &str, body: String, port: u64| json!({
        "e": "send", "i": i, "kind": { "method": method, "route": route, "content": content }, "body": body, "far": "all", "port": port
    });

    std::thread::scope(|scope| {
        for _ in 0..rng.range(1, 3) {
            let mut rng = Rng::new(rng.next(), 2);
            let (desk, next) = (desk.clone(), next.clone());

            // raw ones
            scope.spawn(move || {
                let mut connection: Option<Connection> = None;

                for _ in 0..count {
                    let mut kind = rng.pick(kinds).clone();

                    if rng.chance(50) {
                        kind = json!({ "method": "POST", "route": rng.pick(&["post", "both"]), "content": "valid" });
                    }

                    if connection.is_none() {
                        connection = Connection::open(address).ok();
                    }

                    let Some(open) = &mut connection else { return desk.push(json!({ "e": "no connection" })) };
                    let i = next.fetch_add(1, SeqCst) + 1;
                    let (bytes, about, _) = request(&mut rng, address, &kind, i);
                    desk.push(event(i, kind["method"].as_str().unwrap(), kind["route"].as_str().unwrap(), kind["content"].as_str().unwrap(), about, open.port));
                    send(open, &mut rng, &bytes);

                    if rng.chance(8) {
                        desk.push(json!({ "e": "drop", "i": i }));
                        connection = None;
                        continue;
                    }

                    let (received, usable) = received(i, open.answer(kind["method"] == "HEAD"));
                    desk.push(received);

                    if !usable || ignored(&kind) || rng.chance(10) {
                        connection = None;
                    }
                }
            });
        }

        // those of one client of the library
        let tasks: Vec<_> = (0..rng.range(1, 6)).map(|_| {
            // clients take their time to be made
            let once = if rng.chance(30) { Some(ReqwestHttpClient::default()) } else { None };
            let mut used = false;
            let mut rng = Rng::new(rng.next(), 3);
            let (desk, next, client) = (desk.clone(), next.clone(), client.clone());

            runtime.spawn(async move {
                for _ in 0..count {
                    let i = next.fetch_add(1, SeqCst) + 1;
                    let (method, route) = *rng.pick(&[("GET", "get"), ("GET", "both"), ("POST", "post"), ("POST", "both"), ("POST", "post"), ("POST", "both"), ("GET", "post"), ("GET", "none"), ("POST", "get"), ("POST", "none")]);
                    let url = format!("http://{address}{}", path_of(&mut rng, route));
                    let shape = method == "POST" && rng.chance(15);
                    let mut note = if shape { misshaped(&mut rng, i) } else { any_note(&mut rng, i) };

                    if !shape && rng.chance(4) {
                        enlarge(&mut rng, &mut note);
                    }

                    // a connection whose request was refused unread is closed, and must not be used for another
                    let refused = (method, route) != ("GET", "get") && (method, route) != ("POST", "post") && route != "both";

                    if refused && (once.is_none() || used) {
                        continue;
                    }

                    used |= refused;
                    let client = if refused { once.clone().unwrap() } else { client.clone() };

                    desk.push(event(i, method, route, if method == "GET" { "none" } else if shape { "shape" } else { "valid" }, if method == "GET" { String::new() } else { digest(&note) }, 0));

                    let result = tokio::time::timeout(SOON, async {
                        if shape || rng.chance(20) {
                            let result = if method == "GET" { client.get(&url).await } else { client.post(&url, note).await };
                            result.map_err(|err| err.to_string()).and_then(|answer| if answer.status < 300 { answer.body.ok_or(String::from("empty")) } else { Err(String::from("status")) })
                        } else if method == "GET" {
                            client.get_request::<Note>(&url).await.map(|note| note.0).map_err(|err| err.to_string())
                        } else {
                            client.post_request::<Note, Note>(&url, Note(note)).await.map(|note| note.0).map_err(|err| err.to_string())
                        }
                    }).await;

                    desk.push(match result {
                        Err(_) => json!({ "e": "receive", "i": i, "result": "stuck", "answer": "" }),
                        Ok(Ok(answer)) => json!({ "e": "receive", "i": i, "result": "answer", "answer": digest(&answer) }),
                        Ok(Err(reason)) => json!({ "e": "receive", "i": i, "result": "error", "answer": "", "reason": reason })
                    });
                }
            })
        }).collect();

        runtime.block_on(async {
            for task in tasks {
                if let Err(err) = task.await {
                    desk.push(json!({ "e": "client panics", "what": err.to_string() }));
                }
            }
        });
    });

    drop(runtime);
    drop(server);
    desk.push(json!({ "e": "end" }));
    let events = std::mem::take(&mut desk.lock().events);
    histories.add(events, json!({ "free": count }));
}

/// A great many at once, all of them waiting for their answers.
fn flood(rng: &mut Rng, late: bool, histories: &mut Histories) {
    let desk = Shared::default();

    let server = match serve_notes(desk.clone()) {
        Ok(server) => server,
        Err(reason) => return histories.add(vec![json!({ "e": "serve", "can": true, "started": false, "reason": reason })], json!("start"))
    };

    let address = server.address;
    let long = SOON + Duration::from_secs(25);
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let (raw, library) = (rng.range(80, 200), rng.range(40, 120));
    let kind = |route: &str| json!({ "method": "POST", "route": route, "content": "valid" });
    let mut connections = Vec::new();

    for i in 1..=raw as u64 {
        let Ok(mut connection) = Connection::open(address) else { return histories.add(vec![json!({ "e": "no connection" })], json!("flood")) };
        connection.stream.set_read_timeout(Some(long)).unwrap();
        let kind = kind(rng.pick(&["post", "both"]));
        let (bytes, about, part) = request(rng, address, &kind, i);
        let all = rng.chance(95);
        desk.push(json!({ "e": "send", "i": i, "kind": kind, "body": about, "far": if all { "all" } else { "part" }, "port": connection.port }));
        connection.send(if all { &bytes } else { &bytes[..part] });
        connections.push((i, connection, if all { Vec::new() } else { bytes[part..].to_vec() }));
    }

    let client = ReqwestHttpClient::default();

    let tasks: Vec<_> = (raw + 1..=raw + library).map(|i| {
        let (client, desk) = (client.clone(), desk.clone());
        let note = any_note(rng, i as u64);
        let route = *rng.pick(&["post", "both"]);
        let url = format!("http://{address}{}", path_of(rng, route));

        runtime.spawn(async move {
            desk.push(json!({ "e": "send", "i": i, "kind": { "method": "POST", "route": route, "content": "valid" }, "body": digest(&note), "far": "all", "port": 0 }));
            let result = tokio::time::timeout(long, client.post_request::<Note, Note>(&url, Note(note))).await;

            desk.push(match result {
                Err(_) => json!({ "e": "receive", "i": i, "result": "stuck", "answer": "" }),
                Ok(Ok(answer)) => json!({ "e": "receive", "i": i, "result": "answer", "answer": digest(&answer.0) }),
                Ok(Err(reason)) => json!({ "e": "receive", "i": i, "result": "error", "answer": "", "reason": reason.to_string() })
            });
        })
    }).collect();

    let reached = |count: usize| {
        let start = Instant::now();

        while desk.lock().waiting.len() < count {
            if start.elapsed() > SOON {
                desk.push(json!({ "e": "stuck" }));
                break;
            }

            std::thread::sleep(Duration::from_millis(1));
        }
    };

    reached(library + connections.iter().filter(|(_, _, rest)| rest.is_empty()).count());

    if late {
        std::thread::sleep(Duration::from_secs(11));
    }

    for (i, connection, rest) in &mut connections {
        if !rest.is_empty() {
            desk.push(json!({ "e": "rest", "i": i }));
            connection.send(rest);
        }
    }

    reached(library + connections.len());

    // they're answered in any order
    let mut ports: Vec<u64> = desk.lock().waiting.keys().copied().collect();
    ports.sort();

    while !ports.is_empty() {
        let port = ports.swap_remove(rng.below(ports.len()));
        let (run, sender) = desk.lock().waiting.remove(&port).unwrap();
        let outcome = decide(rng, run);
        desk.push(reply(run, &outcome));
        let _ = sender.send(outcome);
    }

    for (i, mut connection, _) in connections {
        let (event, _) = received(i, connection.answer(false));
        desk.push(event);
    }

    runtime.block_on(async {
        for task in tasks {
            if let Err(err) = task.await {
                desk.push(json!({ "e": "client panics", "what": err.to_string() }));
            }
        }
    });

    drop(runtime);
    drop(server);
    desk.push(json!({ "e": "end" }));
    let events = std::mem::take(&mut desk.lock().events);
    histories.add(events, json!({ "raw": raw, "library": library }));
}

// ------------------------------------------------------------------ answers to a client

/// What the other end does with each connection, and what it saw.
struct Other {
    address: SocketAddr,
    seen: Arc<Mutex<Vec<String>>>,
    stop: Arc<Mutex<bool>>,
    thread: Option<std::thread::JoinHandle<()>>
}

fn answer_with(way: &str, answer: &Json, address: SocketAddr, rng: &mut Rng) -> (Vec<u8>, usize) {
    let text = answer.to_string();

    let plain = |status: &str, body: &[u8]| {
        let mut bytes = format!("HTTP/1.1 {status}\r\ncontent-type: text/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n", body.len()).into_bytes();
        bytes.extend(body);
        bytes
    };

    let bytes = match way {
        "right" | "slow" | "large" => { let text = written(rng, answer); plain("200 OK", text.as_bytes()) }

        "chunked" => {
            let mut bytes = b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n".to_vec();

            for chunk in text.as_bytes().chunks((text.len() / 7).max(3)) {
                bytes.extend(format!("{:X}\r\n", chunk.len()).bytes());
                bytes.extend(chunk);
                bytes.extend(b"\r\n");
            }

            bytes.extend(b"0\r\n\r\n");
            bytes
        }

        "until closed" => format!("HTTP/1.0 200 OK\r\n\r\n{text}").into_bytes(),
        "right but error" => { let status = rng.pick(&["500 Internal Server Error", "404 Not Found", "400 Bad Request", "503 Busy", "201 Created"]); plain(status, text.as_bytes()) }
        "redirected" => format!("HTTP/1.1 {}\r\nlocation: http://{address}/right\r\ncontent-length: 0\r\nconnection: close\r\n\r\n", rng.pick(&["302 Found", "307 Temporary Redirect", "308 Permanent Redirect"])).into_bytes(),
        "endless redirect" => format!("HTTP/1.1 {}\r\nlocation: http://{address}/again\r\ncontent-length: 0\r\nconnection: close\r\n\r\n", rng.pick(&["302 Found", "307 Temporary Redirect"])).into_bytes(),
        "no JSON" => { let junk = junk(rng, 1); plain("200 OK", &junk) }
        "wrong shape" => { let shape = misshaped(rng, 1).to_string(); plain("200 OK", shape.as_bytes()) }
        "empty" => plain("200 OK", b""),
        "no content" => b"HTTP/1.1 204 No Content\r\nconnection: close\r\n\r\n".to_vec(),
        "trailing junk" => plain("200 OK", format!("{text}{}", rng.pick(&["x", "{}", "]", "\0"])).as_bytes()),
        "no UTF-8" => plain("200 OK", &[text[..text.len() - 1].as_bytes(), b",\"z\":\"\xc3\x28\"}"].concat()),
        "error text" => { let status = rng.pick(&["500 Internal Server Error", "404 Not Found", "405 Method Not Allowed", "413 Payload Too Large", "200 OK"]); plain(status, b"Failed to deserialize request JSON") }

        "cut" => {
            let whole = plain("200 OK", text.as_bytes());
            let head = whole.len() - text.len();
            whole[..rng.range(head, whole.len() - 1)].to_vec()
        }

        "closed" => Vec::new(),
        "no HTTP" => rng.pick(&[b"\0\0\0\0\0\0\r\n\r\n".to_vec(), b"SSH-2.0-OpenSSH\r\n".to_vec(), text.clone().into_bytes(), format!("HTTP/9.9 200 OK\r\n\r\n{text}").into_bytes(), b"HTTP/1.1 abc\r\n\r\n".to_vec()]).clone(),
        _ => unreachable!("{way}")
    };

    let pieces = if way == "slow" { 9 } else { 1 };
    (bytes, pieces)
}

impl Other {
    fn start(way: String, answer: Json, mut rng: Rng) -> Self {
        let address = fresh_address();
        let listener = TcpListener::bind(address).unwrap();
        let seen = Arc::new(Mutex::new(Vec::new()));
        let stop = Arc::new(Mutex::new(false));
        let (saw, stopped) = (seen.clone(), stop.clone());

        let thread = std::thread::spawn(move || loop {
            let Ok((stream, _)) = listener.accept() else { return };

            if *stopped.lock().unwrap() {
                return;
            }

            stream.set_read_timeout(Some(SOON)).unwrap();
            let mut connection = Connection { stream, port: 0, rest: Vec::new() };
            let Ok((start, body)) = connection.message(false) else { continue };
            let body = serde_json::from_slice::<Json>(&body).map(|json| digest(&json)).unwrap_or_default();
            let mut parts = start.split(' ');
            let (method, path) = (parts.next().unwrap_or_default().to_string(), parts.next().unwrap_or_default().to_string());
            let followed = path == "/right";
            saw.lock().unwrap().push(format!("{method} {path} {body}"));

            let (bytes, pieces) = answer_with(if followed { "right" } else { &way }, &answer, address, &mut rng);

            for piece in bytes.chunks((bytes.len() / pieces).max(1)) {
                connection.send(piece);

                if pieces > 1 {
                    std::thread::sleep(Duration::from_micros(500));
                }
            }

            // what the other end still reads isn't taken away by a reset
            let _ = connection.stream.shutdown(std::net::Shutdown::Write);
            let _ = connection.stream.set_read_timeout(Some(Duration::from_secs(2)));
            while matches!(connection.stream.read(&mut [0; 1000]), Ok(count) if count > 0) {}
        });

        Self { address, seen, stop, thread: Some(thread) }
    }
}

impl Drop for Other {
    fn drop(&mut self) {
        *self.stop.lock().unwrap() = true;
        let _ = TcpStream::connect(self.address);

        if let Some(thread) = self.thread.take() {
            let _ = thread.join();
        }
    }
}

fn asked(way: &str, client: &ReqwestHttpClient, rng: &mut Rng, runtime: &tokio::runtime::Runtime) -> Json {
    let id = rng.next() >> 1;
    let (note, mut answer) = (any_note(rng, id), any_note(rng, id + 1));

    if way == "large" {
        answer["long"] = json!("large ".repeat(rng.range(100_000, 900_000)));
    }

    let post = rng.chance(50);
    let path = rng.pick(&["/", "/api/v1/info", "/a?b=c", "/%20x"]).to_string();
    let other = if ["refused", "no address"].contains(&way) { None } else { Some(Other::start(way.to_string(), answer.clone(), Rng::new(rng.next(), 4))) };

    let url = match (&other, way) {
        (Some(other), _) => format!("http://{}{path}", other.address),
        (None, "refused") => format!("http://{}{path}", fresh_address()),
        (None, _) => rng.pick(&["", "/api/v1/info", "http://", "http:///x", "nothing", "ftp://127.0.0.1/x", "http://[::1", "http://127.0.0.1:99999/", "data:text/json,{\"id\":1}", "file:///etc/hostname", "http://no such host/"]).to_string()
    };

    let result = guarded(|| runtime.block_on(async {
        tokio::time::timeout(SOON, async {
            if post { client.post_request::<Note, Note>(&url, Note(note.clone())).await } else { client.get_request::<Note>(&url).await }.map_err(|err| err.to_string())
        }).await
    }));

    let (result, value) = match result {
        Err(panic) => (panic, String::new()),
        Ok(Err(_)) => (String::from("stuck"), String::new()),
        Ok(Ok(Ok(value))) => (String::from("value"), digest(&value.0)),
        Ok(Ok(Err(_))) => (String::from("error"), String::new())
    };

    let seen = other.map(|other| other.seen.lock().unwrap().clone()).unwrap_or_default();

    json!({
        "e": "asked", "way": way, "seen": seen.len(), "saw": seen.first().cloned().unwrap_or_default(), "result": result, "value": value, "answer": digest(&answer),
        "asked": format!("{} {path} {}", if post { "POST" } else { "GET" }, if post { digest(&note) } else { String::new() })
    })
}

/// Where a server can start, and where it can't.
fn starts(rng: &mut Rng, runtime: &tokio::runtime::Runtime) -> Vec<Json> {
    let mut events = Vec::new();
    let taken = TcpListener::bind(fresh_address()).unwrap();

    for address in [taken.local_addr().unwrap().to_string(), String::from("no such host:1"), String::from("127.0.0.1"), String::from("127.0.0.1:99999"), String::new(), format!("203.0.113.{}:80", rng.range(1, 250))] {
        let result = guarded(|| runtime.block_on(async {
            let mut server = AxumHttpServer::default();
            server.get("/", |_| async { Note(json!({ "id": 1 })) }).await;
            tokio::time::timeout(Duration::from_millis(300), async { server.serve(address.as_str()).await.map_err(|err| err.to_string()) }).await
        }));

        events.push(json!({ "e": "serve", "can": false, "started": !matches!(result, Ok(Ok(Err(_)))), "address": address }));
    }

    events
}

pub fn campaign(plan: &Json, seed: u64) -> Json {
    let what = plan["what"].as_str().unwrap();
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{what}-{shard}"));
    let mut rng = Rng::new(seed, 12_000 + shard);
    let empty = Vec::new();
    let cases = plan["cases"].as_array().unwrap_or(&empty);

    match what {
        "free" => for _ in 0..plan["count"].as_u64().unwrap() {
            watch(|| String::from("many requests"));
            free(&mut rng, cases, &mut histories);
        },

        "flood" => for round in 0..plan["count"].as_u64().unwrap() {
            watch(|| String::from("a great many requests"));
            flood(&mut rng, round == 0 && shard % 4 == 0, &mut histories);
        },

        "answers" => {
            let runtime = runtime(1);
            let client = ReqwestHttpClient::default();
            let mut events = starts(&mut rng, &runtime);

            for number in 0..plan["count"].as_u64().unwrap() as usize {
                let way = cases[number % cases.len()].as_str().unwrap();
                watch(|| format!("answer {way}"));
                let event = if rng.chance(20) { asked(way, &ReqwestHttpClient::default(), &mut rng, &runtime) } else { asked(way, &client, &mut rng, &runtime) };
                events.push(event);
            }

            histories.add(events, json!("answers"));
        }

        _ => for ops in cases {
            walk(ops.as_array().unwrap(), &mut rng, &mut histories);
        }
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}
