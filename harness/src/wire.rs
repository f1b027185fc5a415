//! Documents: values written, changed, and read again.

use hyperborealib::prelude::*;
use hyperborealib::rest_api::{AsJson, prelude::Client, prelude::Server};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value as Json};

use crate::script::Histories;
use crate::util::*;

struct Made {
    rng: Rng,
    seed: u64
}

impl Made {
    fn key(&mut self) -> PublicKey {
        public(self.seed, 900 + self.rng.next() % 20)
    }

    fn sign(&mut self) -> Vec<u8> {
        let len = *self.rng.pick(&[0, 1, 2, 3, 63, 64, 64, 64, 65, 300]);
        self.rng.bytes(len)
    }

    fn some<T>(&mut self, what: fn(&mut Self) -> T) -> Vec<T> {
        let count = *self.rng.pick(&[1, 1, 2, 3, 7]);
        (0..count).map(|_| what(self)).collect()
    }

    fn info(&mut self) -> ClientInfo {
        any_info(&mut self.rng)
    }

    fn certificate(&mut self) -> ConnectionCertificate {
        ConnectionCertificate { token: ConnectionToken::new(self.rng.number(), self.key()), sign: self.sign() }
    }

    fn client(&mut self) -> Client {
        Client::new(self.key(), self.certificate(), self.info())
    }

    fn server(&mut self) -> Server {
        Server::new(self.key(), self.rng.text(40))
    }

    fn sender(&mut self) -> Sender {
        Sender::new(self.client(), self.server())
    }

    fn message(&mut self) -> Message {
        Message::new(self.rng.text(60), self.rng.text(60), any_encoding(&mut self.rng))
    }

    fn letter(&mut self) -> MessageInfo {
        MessageInfo::new(self.sender(), self.rng.text(30), self.message(), self.rng.number())
    }

    fn request<T>(&mut self, request: T) -> Request<T> {
        Request { standard: 1, public_key: self.key(), proof_seed: self.rng.number(), proof_sign: self.sign(), request }
    }

    fn answer<T>(&mut self, response: T) -> Response<T> {
        Response::Success { standard: 1, status: ResponseStatus::Success, public_key: self.key(), proof_sign: self.sign(), response }
    }

    fn error<T>(&mut self) -> Response<T> {
        let status = *self.rng.pick(&[
            ResponseStatus::ServerError, ResponseStatus::InvalidRequestStructure, ResponseStatus::RequestValidationFailed, ResponseStatus::ClientLookupTimeout,
            ResponseStatus::ClientNotFound, ResponseStatus::ClientNotConnected, ResponseStatus::ClientInboxFull, ResponseStatus::MessageTooLarge
        ]);

        Response::Error { standard: 1, status, reason: self.rng.text(40) }
    }

    fn connect(&mut self) -> ConnectRequestBody {
        ConnectRequestBody { certificate: self.certificate(), client: self.info() }
    }

    fn announce_client(&mut self) -> AnnounceRequestBody {
        AnnounceRequestBody::Client { client: self.client(), server: self.server() }
    }

    fn announce_server(&mut self) -> AnnounceRequestBody {
        AnnounceRequestBody::Server { server: self.server() }
    }

    fn lookup(&mut self) -> LookupRequestBody {
        LookupRequestBody { public_key: self.key(), client_type: *self.rng.pick(&[None, Some(ClientType::Thin), Some(ClientType::Thick), Some(ClientType::Server), Some(ClientType::File)]) }
    }

    fn local(&mut self) -> LookupResponseBody {
        LookupResponseBody::Local { client: self.client(), available: self.rng.chance(50) }
    }

    fn remote(&mut self) -> LookupResponseBody {
        LookupResponseBody::Remote { client: self.client(), server: self.server(), available: self.rng.chance(50) }
    }

    fn hint(&mut self) -> LookupResponseBody {
        LookupResponseBody::Hint { servers: self.some(Self::server) }
    }

    fn send(&mut self) -> SendRequestBody {
        SendRequestBody { sender: self.sender(), receiver_public: self.key(), channel: self.rng.text(30), message: self.message() }
    }

    fn poll(&mut self) -> PollRequestBody {
        PollRequestBody { channel: self.rng.text(30), limit: if self.rng.chance(30) { None } else { Some(self.rng.number()) } }
    }

    fn polled(&mut self) -> PollResponseBody {
        PollResponseBody { messages: self.some(Self::letter), remaining: self.rng.number() }
    }
}

/// The kind of what is at the path: what replaces it depends on that.
fn kind_of(path: &[String], document: &Json) -> &'static str {
    let name = path.last().map(String::as_str).unwrap_or_default();
    let above = if path.len() > 1 { path[path.len() - 2].as_str() } else { "" };

    match name {
        "public_key" => "key",
        "token" => "token",
        "sign" if above == "message" || document.get("encoding").is_some() => "text",
        "sign" => "bytes",
        "seed" | "received_at" | "remaining" => "number",
        "available" => "bool",
        "standard" => "standard",
        "status" => "status",
        "encoding" => "encoding",
        "announce" | "disposition" => "tag",
        "limit" => "limit",
        "type" => "type",
        _ => "text"
    }
}

fn another(kind: &str, before: &Json, made: &mut Made) -> Json {
    match kind {
        "key" => json!(public(made.seed, 950 + made.rng.next() % 20).to_base64()),
        "token" => json!(base64_encode(ConnectionToken::new(made.rng.next() >> 1, made.key()).to_bytes())),
        "bytes" => { let len = made.rng.range(1, 90); json!(base64_encode(made.rng.bytes(len))) }
        "number" | "limit" => json!(made.rng.next()),
        "bool" => json!(*before != json!(true)),
        "standard" => json!(made.rng.pick(&[0, 2, 3, 10, 256, 257, 1 << 32, (1 << 32) + 1, u64::MAX])),
        "status" => json!(made.rng.pick(&[100, 200, 300, 301, 310, 311, 320, 321, 322])),
        "encoding" => json!(made.rng.pick(&["base64/none", "base64/plain", "base64/none/none", "base64/none/brotli", "base64/aes256-gcm/none", "base64/plain/plain", "base64/chacha20-poly1305/plain", "base64/deflate"])),
        "tag" => json!(made.rng.pick(&["client", "server", "local", "remote", "hint"])),
        "type" => json!(made.rng.pick(&["thin", "thick", "server", "file"])),
        "list" => { let mut items = before.as_array().cloned().unwrap_or_default(); items.extend(items.first().cloned()); Json::Array(items) }
        _ => json!(format!("another {}", made.rng.text(30)))
    }
}

fn damaged(kind: &str, before: &Json, rng: &mut Rng) -> Json {
    let text = before.as_str().unwrap_or_default().to_string();
    let cut = |text: &str| text.chars().take(text.chars().count() / 3 * 2 + 1).collect::<String>();

    match kind {
        "key" => match rng.below(5) {
            0 => json!(text.replacen('A', "B", 1)),
            1 => json!(cut(&text)),
            2 => json!(base64_encode([5, 5, 5])),
            3 => json!(format!(" {text}")),
            _ => json!(format!("{text}AAAA"))
        },

        "token" => {
            let mut bytes = base64_decode(&text).unwrap();

            match rng.below(6) {
                0 => { bytes.pop(); }
                1 => { bytes.truncate(rng.below(40)); }
                2 => bytes.push(0),
                3 => bytes[8] = *rng.pick(&[0, 1, 4, 6, 7, 9, 255]),
                4 => bytes[9..].fill(0xff),
                _ => return json!(format!("{text}\n"))
            }

            json!(base64_encode(bytes))
        }

        "bytes" => match rng.below(4) {
            0 => json!(format!("{text}=")),
            1 => json!(format!("{text}+/")),
            2 => json!(format!("{text}A")),
            _ => json!(format!("é{text}"))
        },

        "encoding" => json!(match rng.below(9) {
            0 => text.to_uppercase(),
            1 => format!("{text}/none/none/none"),
            2 => String::from("aes256-gcm"),
            3 => format!("/{text}"),
            4 => String::from("base32/aes256-gcm"),
            5 => format!("{} ", text),
            6 => String::from("base64/deflate/aes256-gcm"),
            7 => String::from("base64//"),
            _ => String::from("base64/aes128-gcm")
        }),

        "type" => json!(rng.pick(&["Thin", "thin ", "THICK", "servers", "client", "thi", "file\0"])),
        "tag" => json!(rng.pick(&["Local", "remote ", "hints", "clients", "none", "serve"])),
        "status" => rng.pick(&[json!("100"), json!(101), json!(99), json!(0), json!(201), json!(399), json!(1000), json!(u64::MAX), json!([100]), json!((1_u64 << 32) + 100)]).clone(),
        "standard" => rng.pick(&[json!("1"), json!(1.0), json!(true), json!([1]), json!(null), json!({ "standard": 1 })]).clone(),
        "number" => rng.pick(&[json!("5"), json!([5]), json!(5.5), json!("0x5")]).clone(),
        "limit" => rng.pick(&[json!("5"), json!([5]), json!(5.5), json!("none"), json!(false)]).clone(),
        "bool" => rng.pick(&[json!("true"), json!(1), json!(0), json!("false"), json!([true])]).clone(),
        "list" => json!({ "0": before.get(0) }),
        _ => json!([text])
    }
}

/// What happened to the document: whether the change could be made.
fn change(document: &mut Json, path: &[String], what: &str, made: &mut Made) -> bool {
    let mut place = &mut *document;
    let mut above = Json::Null;

    for (depth, name) in path.iter().enumerate() {
        let last = depth + 1 == path.len();

        if last {
            above = place.clone();
        }

        if name == "*" {
            let Some(items) = place.as_array_mut().filter(|items| !items.is_empty()) else { return false };
            let at = made.rng.below(items.len());

            if last && what == "missing" {
                items.remove(at);
                return true;
            }

            place = &mut items[at];
        } else {
            let Some(fields) = place.as_object_mut() else { return false };

            if last && what == "missing" {
                return fields.remove(name).is_some();
            }

            match fields.get_mut(name) {
                Some(field) => place = field,
                None => return false
            }
        }
    }

    let composite = place.is_object();
    let kind = if place.is_array() { "list" } else { kind_of(path, &above) };

    let new = match what {
        "null" => json!(null),
        "bool" => json!(made.rng.chance(50)),
        "int" => json!(7),
        "negative" => json!(-(made.rng.range(1, 1000) as i64)),
        "fraction" => made.rng.pick(&[json!(1.5), json!(0.1), json!(1.0), json!(-0.0), json!(100.0), json!(1e300)]).clone(),
        "huge" => json!(18446744073709551616.0),
        "text" => json!(made.rng.pick(&["x?", "?", "\0", "?=", "é", "{}", "漢字"])),
        "empty" => json!(""),
        "list" => json!([]),
        "object" => json!({}),
        "another" if composite => json!("another"),
        "damaged" if composite => json!([place.clone()]),
        "another" => another(kind, place, made),
        "damaged" => damaged(kind, place, &mut made.rng),
        _ => unreachable!("{what}")
    };

    *place = new;
    true
}

type Exercise = Box<dyn Fn(&mut Made, &[(Vec<String>, String)], Option<&Json>) -> String>;

fn by_serde<T: PartialEq + Serialize + DeserializeOwned>(value: &T) -> bool {
    serde_json::to_string(value).ok().and_then(|text| serde_json::from_str::<T>(&text).ok()).is_some_and(|read| read == *value)
}

fn exercise<T: AsJson + PartialEq + Clone + Serialize + DeserializeOwned + 'static>(make: impl Fn(&mut Made) -> T + 'static) -> Exercise {
    exercise_with(make, by_serde)
}

fn exercise_with<T: AsJson + PartialEq + Clone + 'static>(make: impl Fn(&mut Made) -> T + 'static, by_serde: fn(&T) -> bool) -> Exercise {
    Box::new(move |made, changes, instead| {
        let value = make(made);

        let outcome = guarded(|| {
            let mut document = match value.to_json() {
                Ok(document) => document,
                Err(err) => return format!("not written: {err}")
            };

            for (path, what) in changes {
                if !change(&mut document, path, what, made) {
                    return format!("no place for {what} at {path:?} of {document}");
                }
            }

            if let Some(instead) = instead {
                document = instead.clone();
            }

            let text = document.to_string();

            let document: Json = match serde_json::from_str(&text) {
                Ok(document) => document,
                Err(err) => return format!("no JSON: {err}")
            };

            let read = match T::from_json(&document) {
                Ok(read) => read,
                Err(_) => return String::from("rejected")
            };

            if changes.is_empty() && instead.is_none() {
                if read != value {
                    return format!("read as another: {text}");
                }

                // by serde itself, too
                return String::from(if by_serde(&value) { "same" } else { "not read back by serde" });
            }

            // whatever it was read as is a value like any other
            match read.to_json().map(|document| T::from_json(&serde_json::from_str(&document.to_string()).unwrap())) {
                Ok(Ok(again)) if again == read => String::from("read"),
                _ => format!("read as what doesn't read back: {text}")
            }
        });

        outcome.unwrap_or_else(|panic| panic)
    })
}

fn exercises() -> Vec<(&'static str, &'static str, Exercise)> {
    vec![
        ("value", "info", exercise(Made::info)),
        ("value", "certificate", exercise(Made::certificate)),
        ("value", "client", exercise(Made::client)),
        ("value", "server", exercise(Made::server)),
        ("value", "sender", exercise(Made::sender)),
        ("value", "message", exercise(Made::message)),
        ("value", "letter", exercise(Made::letter)),
        ("value", "information", exercise(|made| InfoResponse { standard: 1, public_key: made.key(), proof_seed: made.rng.number(), proof_sign: made.sign() })),
        ("value", "allclients", exercise_with(|made| ClientsResponse { standard: 1, clients: made.some(Made::client) }, |_| true)),
        ("value", "allservers", exercise(|made| ServersResponse { standard: 1, servers: made.some(Made::server) })),
        ("value", "servers", exercise(|made| made.some(Made::server))),

        ("value", "connect", exercise(Made::connect)),
        ("value", "connected", exercise(|_| ConnectResponseBody::new())),
        ("value", "disconnect", exercise(|_| DisconnectRequestBody::new())),
        ("value", "disconnected", exercise(|_| DisconnectResponseBody::new())),
        ("value", "announceclient", exercise(Made::announce_client)),
        ("value", "announceserver", exercise(Made::announce_server)),
        ("value", "announced", exercise(|_| AnnounceResponseBody::new())),
        ("value", "lookup", exercise(Made::lookup)),
        ("value", "local", exercise(Made::local)),
        ("value", "remote", exercise(Made::remote)),
        ("value", "hint", exercise(Made::hint)),
        ("value", "send", exercise(Made::send)),
        ("value", "sent", exercise(|_| SendResponseBody::new())),
        ("value", "poll", exercise(Made::poll)),
        ("value", "polled", exercise(Made::polled)),

        ("request", "connect", exercise(|made| { let body = made.connect(); ConnectRequest(made.request(body)) })),
        ("request", "disconnect", exercise(|made| DisconnectRequest(made.request(DisconnectRequestBody::new())))),
        ("request", "announceclient", exercise(|made| { let body = made.announce_client(); AnnounceRequest(made.request(body)) })),
        ("request", "announceserver", exercise(|made| { let body = made.announce_server(); AnnounceRequest(made.request(body)) })),
        ("request", "lookup", exercise(|made| { let body = made.lookup(); LookupRequest(made.request(body)) })),
        ("request", "send", exercise(|made| { let body = made.send(); SendRequest(made.request(body)) })),
        ("request", "poll", exercise(|made| { let body = made.poll(); PollRequest(made.request(body)) })),

        ("answer", "connected", exercise(|made| ConnectResponse(made.answer(ConnectResponseBody::new())))),
        ("answer", "disconnected", exercise(|made| DisconnectResponse(made.answer(DisconnectResponseBody::new())))),
        ("answer", "announced", exercise(|made| AnnounceResponse(made.answer(AnnounceResponseBody::new())))),
        ("answer", "local", exercise(|made| { let body = made.local(); LookupResponse(made.answer(body)) })),
        ("answer", "remote", exercise(|made| { let body = made.remote(); LookupResponse(made.answer(body)) })),
        ("answer", "hint", exercise(|made| { let body = made.hint(); LookupResponse(made.answer(body)) })),
        ("answer", "sent", exercise(|made| SendResponse(made.answer(SendResponseBody::new())))),
        ("answer", "polled", exercise(|made| { let body = made.polled(); PollResponse(made.answer(body)) })),

        ("error", "connected", exercise(|made| ConnectResponse(made.error()))),
        ("error", "disconnected", exercise(|made| DisconnectResponse(made.error()))),
        ("error", "announced", exercise(|made| AnnounceResponse(made.error()))),
        ("error", "local", exercise(|made| LookupResponse(made.error()))),
        ("error", "remote", exercise(|made| LookupResponse(made.error()))),
        ("error", "hint", exercise(|made| LookupResponse(made.error()))),
        ("error", "sent", exercise(|made| SendResponse(made.error()))),
        ("error", "polled", exercise(|made| PollResponse(made.error())))
    ]
}

/// Any document: made up, or out of the pieces of others.
fn anything(made: &mut Made, depth: usize) -> Json {
    const NAMES: &[&str] = &[
        "standard", "public_key", "proof", "seed", "sign", "request", "response", "status", "reason", "client", "server", "certificate", "token", "type", "address",
        "announce", "disposition", "available", "servers", "clients", "messages", "remaining", "limit", "channel", "sender", "receiver", "message", "content", "encoding", "received_at", "", "0"
    ];

    match made.rng.below(if depth == 0 { 11 } else { 16 }) {
        0 => json!(null),
        1 => json!(made.rng.chance(50)),
        2 => json!(made.rng.number()),
        3 => json!(-(made.rng.below(1 << 40) as i64)),
        4 => json!(made.rng.below(1000) as f64 / 8.0),
        5 => json!(made.rng.text(30)),
        6 => json!(made.rng.pick(&[1, 100, 200, 300, 301, 2])),
        7 => json!(made.key().to_base64()),
        8 => json!(made.rng.pick(&["thin", "server", "client", "local", "remote", "hint", "base64", "base64/aes256-gcm/brotli"])),
        9 => another("token", &Json::Null, made),
        10 => another("bytes", &Json::Null, made),
        11 => { let count = made.rng.below(4); (0..count).map(|_| anything(made, depth - 1)).collect() }

        12 => match made.rng.below(5) {
            0 => made.client().to_json().unwrap(),
            1 => made.sender().to_json().unwrap(),
            2 => made.letter().to_json().unwrap(),
            3 => { let body = made.send(); made.request(body).to_json().unwrap() }
            _ => { let body = made.polled(); made.answer(body).to_json().unwrap() }
        },

        _ => {
            let count = made.rng.below(9);
            Json::Object((0..count).map(|_| (made.rng.pick(NAMES).to_string(), anything(made, depth - 1))).collect())
        }
    }
}

fn token(made: &mut Made) -> Json {
    let token = ConnectionToken::new(made.rng.number(), made.key());
    let mut bytes = token.to_bytes().to_vec();
    let whole = made.rng.chance(30);

    if !whole {
        match made.rng.below(6) {
            0 => bytes.truncate(made.rng.below(41)),
            1 => { bytes.remove(made.rng.below(8)); }
            2 => bytes.push(0),
            3 => bytes[8] = *made.rng.pick(&[0, 1, 4, 6, 7, 255]),
            4 => bytes[9..].fill(0xff),

            // 73 bytes could be one with a longer form of the key
            _ => { let len = made.rng.below(70); bytes = made.rng.bytes(len); if len == 41 { bytes[8] = 9; } }
        }
    }

    let result = match guarded(|| ConnectionToken::from_bytes(&bytes)) {
        Err(panic) => panic,
        Ok(Err(_)) => String::from("rejected"),
        Ok(Ok(read)) if read == token => String::from("same"),
        Ok(Ok(_)) => String::from("read")
    };

    json!({ "e": "token", "whole": whole, "bytes": base64_encode(bytes), "result": result })
}

/// Values of plain types are written, too.
fn plain(made: &mut Made) -> Json {
    fn same<T: AsJson + PartialEq>(value: T) -> bool {
        match value.to_json() {
            // what JSON has no room for isn't written
            Err(_) => true,
            Ok(document) => serde_json::from_str(&document.to_string()).ok().and_then(|document| T::from_json(&document).ok()).is_some_and(|read| read == value)
        }
    }

    let n = made.rng.number();
    let text = made.rng.text(50);

    let result = guarded(|| {
        same(()) && same(n as u8) && same(n as u16) && same(n as u32) && same(n) && same(n as u128) && same(n as u128 * n as u128) && same(n as usize)
            && same(n as i8) && same(n as i16) && same(n as i32) && same(n as i64) && same(n as i128) && same(-(n as i128)) && same(n as isize)
            && same(text.clone()) && same(std::path::PathBuf::from(&text)) && same(vec![n; n as usize % 4]) && same(Box::new(n)) && same(vec![vec![text.clone()], vec![]])
    });

    json!({ "e": "plain", "number": n.to_string(), "text": text, "result": match result { Ok(true) => String::from("same"), Ok(false) => String::from("another"), Err(panic) => panic } })
}

pub fn campaign(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut made = Made { rng: Rng::new(seed, 9900 + shard), seed };
    let exercises = exercises();
    let cases = plan["cases"].as_array().unwrap();
    let count = plan["count"].as_u64().unwrap() as usize;
    let random = plan["random"].as_bool().unwrap();
    let mut events = Vec::new();

    let path_of = |case: &Json| case["path"].as_array().unwrap().iter().map(|name| name.as_str().unwrap().to_string()).collect::<Vec<_>>();

    for number in 0..count {
        let case = if random { made.rng.pick(cases).clone() } else { cases[number % cases.len()].clone() };
        watch(|| format!("document: {case}"));

        let (_, _, exercise) = exercises.iter().find(|(form, of, _)| case["type"] == json!({ "form": form, "of": of })).expect("type");

        let mut event = match made.rng.below(if random { 10 } else { 1 }) {
            1 => token(&mut made),
            2 => plain(&mut made),

            // as it is
            3 => json!({ "e": "document", "type": case["type"], "changes": [], "result": exercise(&mut made, &[], None) }),

            4 | 5 => {
                let document = anything(&mut made, 4);
                json!({ "e": "anything", "type": case["type"], "document": document.to_string(), "result": exercise(&mut made, &[], Some(&document)) })
            }

            n => {
                let mut changes = vec![(path_of(&case), case["change"].as_str().unwrap().to_string())];

                // more of them, elsewhere
                for _ in 0..if n == 0 { 0 } else { made.rng.below(3) } {
                    let other = made.rng.pick(cases);
                    let path = path_of(other);

                    if other["type"] == case["type"] && !changes.iter().any(|(known, _)| known.starts_with(&path) || path.starts_with(known)) {
                        changes.push((path, other["change"].as_str().unwrap().to_string()));
                    }
                }

                let listed: Vec<Json> = changes.iter().map(|(path, change)| json!({ "path": path, "change": change })).collect();
                json!({ "e": "document", "type": case["type"], "changes": listed, "result": exercise(&mut made, &changes, None) })
            }
        };

        if event.get("result").is_none() {
            event["result"] = json!("none");
        }

        events.push(event);

        if events.len() == 100 || number + 1 == count {
            histories.add(std::mem::take(&mut events), json!({ "until": number }));
        }
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}
