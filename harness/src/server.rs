//! Servers behind their HTTP routes: replays walks through the specification of a
//! server and records histories of one or several of them.

use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use hyperborealib::drivers::server::messages_inbox::MessagesInbox;
use hyperborealib::drivers::server::router::Router;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::fsgate;
use crate::http::Running;
use crate::net::{new_node, Net, Node};
use crate::router::{any_dates, type_of};
use crate::script::*;
use crate::util::*;

/// Everything that names in requests of the specification stand for.
#[derive(Clone)]
pub struct Names {
    pub seed: u64,
    pub keys: u64,
    pub channels: Vec<String>,
    /// Dates of certificates from the oldest.
    pub dates: Vec<u64>,
    /// Content of clients without an address: the addresses of all others differ.
    pub bare: u64
}

/// What a record in a table can be recognised by.
#[derive(Default)]
pub struct Known {
    locals: Vec<(u64, u64, Client)>,
    remotes: Vec<(u64, u64, Client, Server)>,
    servers: Vec<(u64, u64, Server)>,
    messages: HashMap<(u64, u64), (Sender, Message)>
}

fn number(of: &Json, name: &str) -> u64 {
    of[name].as_u64().unwrap_or_else(|| panic!("{name} in {of}"))
}

/// A signature of its bytes that isn't one of the key.
pub fn garbage(rng: &mut Rng, good: &[u8]) -> Vec<u8> {
    match rng.below(9) {
        0 => Vec::new(),
        1 => vec![0; 64],
        2 => vec![0xff; 64],
        3 => good[..63].to_vec(),
        4 => [good, &[rng.next() as u8]].concat(),
        5 => good[..32].to_vec(),
        6 => rng.bytes(64),
        7 => { let len = rng.below(300); rng.bytes(len) }
        _ => {
            let mut bad = good.to_vec();
            let bit = rng.below(512);
            bad[bit / 8] ^= 1 << (bit % 8);
            bad
        }
    }
}

impl Names {
    pub fn secret(&self, k: u64) -> SecretKey {
        key(self.seed, 60_000 + k)
    }

    pub fn public(&self, k: u64) -> PublicKey {
        public(self.seed, 60_000 + k)
    }

    fn rng(&self, q: &Json, salt: u64) -> Rng {
        let whose = if q["op"] == "connect" { "key" } else { "who" };
        let parts = [whose, "v", "m", "srv", "ty"].iter().fold(salt, |sum, name| sum.wrapping_mul(1009).wrapping_add(number(q, name)));
        Rng::new(self.seed, parts.wrapping_add(q["salt"].as_u64().unwrap_or(0).wrapping_mul(7919)))
    }

    fn sign(&self, by: u64, bytes: &[u8]) -> Vec<u8> {
        self.secret(by).create_signature(bytes)
    }

    /// The certificate that the request has for the client.
    fn certificate(&self, q: &Json) -> ConnectionCertificate {
        let cert = &q["cert"];
        let token = ConnectionToken::new(self.dates[number(cert, "d") as usize - 1], self.public(number(cert, "for")));
        let mut rng = self.rng(q, 2);
        let mut signed = token.to_bytes().to_vec();

        if cert["own"] == false {
            match rng.below(4) {
                0 => signed[7] ^= 1,
                1 => signed.truncate(8),
                2 => signed = ConnectionToken::new(token.auth_date, self.public(number(cert, "by"))).to_bytes().to_vec(),
                _ => signed = ConnectionToken::new(token.auth_date.wrapping_add(1), token.public_key.clone()).to_bytes().to_vec()
            }

            if signed == token.to_bytes() {
                signed[0] ^= 1;
            }
        }

        let mut sign = self.sign(number(cert, "by"), &signed);

        if cert["ok"] == false {
            sign = garbage(&mut rng, &sign);
        }

        ConnectionCertificate { token, sign }
    }

    fn client(&self, q: &Json) -> Client {
        let mut rng = self.rng(q, 1);
        let mut info = any_info(&mut rng);
        info.client_type = type_of(number(q, "ty")).unwrap();
        info.address = if number(q, "v") == self.bare { None } else { Some(rng.named(10, number(q, "v"))) };
        let who = if q["op"] == "connect" { number(q, "key") } else { number(q, "who") };
        Client::new(self.public(who), self.certificate(q), info)
    }

    fn server(&self, q: &Json) -> Server {
        let mut rng = self.rng(q, 3);
        let key = if q["op"] == "server" { number(q, "who") } else { number(q, "srv") };

        let address = match number(q, "v") {
            // what the servers of a history call themselves
            v @ 901..=999 => format!("server{}.example", v - 900),
            v => rng.named(20, v)
        };

        Server::new(self.public(key), address)
    }

    /// What the key sends as message m.
    fn message(&self, key: u64, m: u64) -> (Sender, Message) {
        let mut rng = Rng::new(self.seed, 881_000 + key * 5003 + m);
        let mut client = any_client(self.seed, &mut rng);
        client.public_key = self.public(key);
        let mut server = any_server(self.seed, &mut rng);

        // someone who may send something else itself
        if rng.chance(60) {
            server.public_key = self.public(rng.range(1, self.keys as usize) as u64);
            client.certificate.token.public_key = server.public_key.clone();
        }

        let sender = Sender::new(client, server);
        let size = *rng.pick(&[0, 10, 100, 3000]);
        let content = format!("message {m} of {key} {}", rng.text(size));
        (sender, Message::new(content, rng.text(60), any_encoding(&mut rng)))
    }

    pub fn remember(&self, known: &mut Known, q: &Json) {
        let v = q["v"].as_u64().unwrap_or(0);

        match q["op"].as_str().unwrap() {
            "connect" => known.locals.push((number(q, "key"), v, self.client(q))),
            "announce" => known.remotes.push((number(q, "who"), v, self.client(q), self.server(q))),
            "server" => known.servers.push((number(q, "who"), v, self.server(q))),

            "send" => {
                let (by, m) = (number(q, "sender"), number(q, "m"));
                known.messages.insert((by, m), self.message(by, m));
            }

            _ => ()
        }
    }

    /// Path and body of the request.
    pub fn request(&self, q: &Json) -> (String, Option<Json>, u64) {
        let op = q["op"].as_str().unwrap();

        if ["info", "clients", "servers"].contains(&op) {
            return (format!("/api/v1/{op}"), None, 0);
        }

        let mut rng = self.rng(q, 4 + q["nonce"].as_u64().unwrap_or(0));
        let proof = &q["proof"];

        let seed = if proof["low"] == true {
            *rng.pick(&[0, 1, (1 << 63) - 1, 1 << 62, rng.clone().next() >> 1])
        } else {
            *rng.pick(&[1 << 63, u64::MAX, rng.clone().next() | 1 << 63])
        };

        let mut signed = seed.to_be_bytes().to_vec();

        if proof["own"] == false {
            signed = match rng.below(6) {
                0 => (seed ^ 1).to_be_bytes().to_vec(),
                1 => seed.wrapping_add(256).to_be_bytes().to_vec(),
                2 if seed.swap_bytes() != seed => seed.to_le_bytes().to_vec(),
                3 => seed.to_string().into_bytes(),
                4 => Vec::new(),
                _ => (seed ^ (1 << rng.below(63))).to_be_bytes().to_vec()
            };
        }

        let mut sign = self.sign(number(proof, "by"), &signed);

        if proof["ok"] == false {
            sign = garbage(&mut rng, &sign);
        }

        let text = |key: u64| self.public(key).to_base64();
        let limit = limit_of(q["limit"].as_i64().unwrap());
        let channel = |q: &Json| self.channels[number(q, "c") as usize - 1].clone();

        let body = match op {
            "connect" => {
                let client = self.client(q);
                json!({ "certificate": client.certificate.to_json().unwrap(), "client": client.info.to_json().unwrap() })
            }

            "disconnect" => json!({}),

            "announce" => json!({ "announce": "client", "client": self.client(q).to_json().unwrap(), "server": self.server(q).to_json().unwrap() }),
            "server" => json!({ "announce": "server", "server": self.server(q).to_json().unwrap() }),
            "lookup" => json!({ "public_key": text(number(q, "who")), "type": type_of(number(q, "ty")).map(|ty| ty.to_string()) }),

            "send" => {
                let (sender, message) = self.message(number(q, "sender"), number(q, "m"));

                json!({
                    "sender": sender.to_json().unwrap(),
                    "receiver": { "public_key": text(number(q, "who")) },
                    "channel": channel(q),
                    "message": message.to_json().unwrap()
                })
            }

            "poll" => json!({ "channel": channel(q), "limit": limit }),
            _ => panic!("unknown request {op}")
        };

        let mut request = json!({
            "standard": 1,
            "public_key": text(number(q, "key")),
            "proof": { "seed": seed, "sign": base64_encode(&sign) },
            "request": body
        });

        // something that makes it no request at all
        match q["mangle"].as_u64().unwrap_or(0) {
            0 => (),
            1 => request["standard"] = json!(2),
            2 => { request.as_object_mut().unwrap().remove("standard"); }
            3 => request["public_key"] = json!("AAAA"),
            4 => { request.as_object_mut().unwrap().remove("public_key"); }
            5 => request["proof"] = json!(sign),
            6 => request["proof"]["seed"] = json!(seed.to_string()),
            7 => request["proof"]["seed"] = json!(-1),
            8 => request["proof"]["sign"] = json!("not base64!"),
            9 => { request["proof"].as_object_mut().unwrap().remove("sign"); }
            _ => { request.as_object_mut().unwrap().remove("request"); }
        }

        (format!("/api/v1/{}", if op == "server" { "announce" } else { op }), Some(request), seed)
    }

    fn key_of(&self, key: &PublicKey) -> u64 {
        (1..=self.keys).find(|k| self.public(*k) == *key).unwrap_or(0)
    }

    fn contents(&self, records: Vec<(u64, i64)>) -> Vec<i64> {
        let mut found = vec![0; self.keys as usize];

        for (k, v) in records {
            if k == 0 {
                // no one has ever indexed this key
                found.fill(-3);
            } else if found[k as usize - 1] != 0 {
                found[k as usize - 1] = -2;
            } else {
                found[k as usize - 1] = v;
            }
        }

        found
    }

    fn of_local(&self, known: &Known, client: &Client) -> (u64, i64) {
        let k = self.key_of(&client.public_key);
        (k, known.locals.iter().find(|(key, _, other)| *key == k && other == client).map_or(-1, |(_, v, _)| *v as i64))
    }

    fn of_remote(&self, known: &Known, client: &Client, server: &Server) -> (u64, i64) {
        let k = self.key_of(&client.public_key);
        (k, known.remotes.iter().find(|(key, _, other, place)| *key == k && other == client && place == server).map_or(-1, |(_, v, _, _)| *v as i64))
    }

    fn of_server(&self, known: &Known, server: &Server) -> (u64, i64) {
        let k = self.key_of(&server.public_key);
        (k, known.servers.iter().find(|(key, _, other)| *key == k && other == server).map_or(-1, |(_, v, _)| *v as i64))
    }

    fn of_message(&self, known: &Known, sender: &Sender, message: &Message) -> Json {
        let by = self.key_of(&sender.client.public_key);

        let m = known.messages.iter()
            .find(|((key, _), (other, content))| *key == by && other == sender && content == message)
            .map_or(-1, |((_, m), _)| *m as i64);

        json!({ "m": m, "by": by })
    }

    pub async fn tables(&self, known: &Known, node: &Node) -> Result<[Vec<i64>; 3], String> {
        let driver = node.driver();
        let router = driver.router();

        Ok([
            self.contents(router.local_clients().await.map_err(|err| err.to_string())?.iter().map(|client| self.of_local(known, client)).collect()),
            self.contents(router.remote_clients().await.map_err(|err| err.to_string())?.iter().map(|(client, server)| self.of_remote(known, client, server)).collect()),
            self.contents(router.servers().await.map_err(|err| err.to_string())?.iter().map(|server| self.of_server(known, server)).collect())
        ])
    }

    /// Takes all the messages out.
    pub async fn drain(&self, known: &Known, node: &Node) -> Result<Json, String> {
        let driver = node.driver();
        let mut all = Vec::new();

        for k in 1..=self.keys {
            let mut of_key = Vec::new();

            for channel in &self.channels {
                let (messages, remaining) = driver.messages_inbox().poll_messages(self.public(k), channel.clone(), None).await.map_err(|err| err.to_string())?;

                if remaining != 0 || messages.iter().any(|info| info.channel != *channel) {
                    return Err(format!("{remaining} messages remain or they're in other channels"));
                }

                of_key.push(messages.iter().map(|info| self.of_message(known, &info.sender, &info.message)).collect::<Vec<_>>());
            }

            all.push(of_key);
        }

        Ok(json!(all))
    }

    /// Whether the text says anything of what the server stores.
    fn tells(&self, known: &Known, text: &str) -> bool {
        (1..=self.keys).any(|k| text.contains(&self.public(k).to_base64())) ||
            known.messages.values().any(|(_, message)| text.contains(&message.content)) ||
            known.servers.iter().map(|(_, _, server)| server).chain(known.remotes.iter().map(|(_, _, _, server)| server)).any(|server| server.address.len() > 6 && !server.address.starts_with("server") && text.contains(&server.address))
    }

    /// Perform the request and read its answer as the specification does.
    pub async fn perform(&self, known: &Known, node: &Node, server: u64, q: &Json) -> Json {
        let (path, body, seed) = self.request(q);
        let op = q["op"].as_str().unwrap();
        let answer = node.http_server().call(&path, body).await;
        let mut result = json!({ "ok": true, "kind": "done", "v": 0, "recs": [], "msgs": [], "remaining": 0 });

        let read = || -> Result<(), String> {
            let answer = match answer {
                Ok(answer) => answer,

                Err(reason) => {
                    if self.tells(known, &reason) {
                        return Err(format!("refusal reveals something: {reason}"));
                    }

                    result["ok"] = json!(false);
                    result["kind"] = json!("refused");
                    return Ok(());
                }
            };

            let has = |of: &Json, fields: &[&str]| -> Result<(), String> {
                let mut present: Vec<&str> = of.as_object().ok_or("no object")?.keys().map(String::as_str).collect();
                let mut fields = fields.to_vec();
                present.sort();
                fields.sort();
                if present == fields { Ok(()) } else { Err(format!("fields of {of}")) }
            };

            let proof = |seed: u64, sign: &Json, key: &Json| -> Result<(), String> {
                let sign = base64_decode(sign.as_str().ok_or("no signature")?).map_err(|err| err.to_string())?;

                if *key != json!(self.public(server).to_base64()) || !matches!(self.public(server).verify_signature(seed.to_be_bytes(), sign), Ok(true)) {
                    return Err(String::from("the answer isn't signed by the server for this request"));
                }

                Ok(())
            };

            if answer["standard"] != 1 {
                return Err(format!("standard of {answer}"));
            }

            let client_of = |of: &Json| Client::from_json(of).map_err(|err| err.to_string());
            let server_of = |of: &Json| Server::from_json(of).map_err(|err| err.to_string());

            match op {
                "info" => {
                    has(&answer, &["standard", "server", "proof"])?;
                    let seed = answer["proof"]["seed"].as_u64().ok_or("no seed")?;
                    proof(seed, &answer["proof"]["sign"], &answer["server"]["public_key"])?;

                    if seed < 1 << 63 {
                        return Err(String::from("seed is low"));
                    }

                    result["kind"] = json!("info");
                    return Ok(());
                }

                "clients" => {
                    has(&answer, &["standard", "clients"])?;
                    let clients = answer["clients"].as_array().ok_or("no clients")?.iter().map(client_of).collect::<Result<Vec<_>, _>>()?;
                    result["kind"] = json!("clients");
                    result["recs"] = json!(self.contents(clients.iter().map(|client| self.of_local(known, client)).collect()));
                    return Ok(());
                }

                "servers" => {
                    has(&answer, &["standard", "servers"])?;
                    let servers = answer["servers"].as_array().ok_or("no servers")?.iter().map(server_of).collect::<Result<Vec<_>, _>>()?;
                    result["kind"] = json!("servers");
                    result["recs"] = json!(self.contents(servers.iter().map(|server| self.of_server(known, server)).collect()));
                    return Ok(());
                }

                _ => ()
            }

            if answer["status"] != 100 {
                has(&answer, &["standard", "status", "reason"])?;
                let (status, reason) = (answer["status"].as_u64().ok_or("status")?, answer["reason"].as_str().ok_or("reason")?);

                if ![200, 300, 301, 310, 311, 320, 321, 322].contains(&status) || self.tells(known, reason) {
                    return Err(format!("refused with {status} {reason}"));
                }

                result["ok"] = json!(false);
                result["kind"] = json!("refused");
                result["status"] = json!(status);
                return Ok(());
            }

            has(&answer, &["standard", "status", "public_key", "proof", "response"])?;
            proof(seed, &answer["proof"]["sign"], &answer["public_key"])?;
            let body = &answer["response"];

            match op {
                "lookup" => match body["disposition"].as_str().ok_or("no disposition")? {
                    "local" => {
                        has(body, &["disposition", "client", "available"])?;
                        let (k, v) = self.of_local(known, &client_of(&body["client"])?);
                        result["kind"] = json!("local");
                        result["v"] = json!(if k == number(q, "who") { v } else { -2 });
                    }

                    "remote" => {
                        has(body, &["disposition", "client", "server", "available"])?;
                        let (k, v) = self.of_remote(known, &client_of(&body["client"])?, &server_of(&body["server"])?);
                        result["kind"] = json!("remote");
                        result["v"] = json!(if k == number(q, "who") { v } else { -2 });
                    }

                    "hint" => {
                        has(body, &["disposition", "servers"])?;
                        let servers = body["servers"].as_array().ok_or("no servers")?.iter().map(server_of).collect::<Result<Vec<_>, _>>()?;
                        result["kind"] = json!("hint");
                        result["recs"] = json!(self.contents(servers.iter().map(|server| self.of_server(known, server)).collect()));
                    }

                    _ => return Err(format!("answer to a lookup is {body}"))
                }

                "poll" => {
                    has(body, &["messages", "remaining"])?;

                    let infos = body["messages"].as_array().ok_or("no messages")?.iter()
                        .map(|info| MessageInfo::from_json(info).map_err(|err| err.to_string()))
                        .collect::<Result<Vec<_>, _>>()?;

                    let channel = &self.channels[number(q, "c") as usize - 1];

                    result["kind"] = json!("msgs");
                    result["msgs"] = infos.iter().map(|info| if info.channel == *channel { self.of_message(known, &info.sender, &info.message) } else { json!({ "m": -3, "by": 0 }) }).collect();
                    result["remaining"] = json!(small(body["remaining"].as_u64().ok_or("no remaining")?));
                }

                // the standard says nothing about the response to the others
                _ => ()
            }

            Ok(())
        };

        match guarded(read).and_then(|read| read) {
            Ok(()) => (),
            Err(wrong) => result["kind"] = json!(format!("wrong: {wrong}"))
        }

        result
    }
}

// ------------------------------------------------------------ flow A

fn channel_names(rng: &mut Rng, count: usize) -> Vec<String> {
    let same = rng.text(6);

    (0..count).map(|n| match rng.below(3) {
        0 => format!("{same}{}", "/".repeat(n)),
        1 => format!("{}{n}", rng.text(30)),
        _ => format!("{n}{same}")
    }).collect()
}

pub fn walks(plan: &Json, seed: u64) -> Json {
    let edges = plan["edges"].as_array().unwrap();
    let channels = edges[0]["to"]["queue"][0].as_array().unwrap().len();
    let me = plan["self"].as_u64().unwrap();
    let runtime = runtime(1);
    let mut steps = 0;
    let mut records: Vec<&Json> = Vec::new();

    // one request for each of the records
    for edge in edges {
        let q = &edge["op"]["q"];
        let same = |other: &&&Json| ["op", "who", "v", "sender", "m"].iter().all(|field| other[field] == q[field]) && (q["op"] != "connect" || other["key"] == q["key"]);

        if edge["op"]["res"]["ok"] == true && ["connect", "announce", "server", "send"].contains(&q["op"].as_str().unwrap()) && !records.iter().any(|other| same(&other)) {
            records.push(q);
        }
    }

    for (number, walk) in plan["walks"].as_array().unwrap().iter().enumerate() {
        let mut rng = Rng::new(seed, 700 + number as u64);
        let root = scratch();
        fsgate::guard(&root);

        let names = Names { seed: world(seed, number as u64), keys: 4, channels: channel_names(&mut rng, channels), dates: any_dates(&mut rng, 2), bare: rng.range(0, 2) as u64 };
        let mut known = Known::default();

        for q in &records {
            names.remember(&mut known, q);
        }

        let open = || {
            run_as(1, &runtime, new_node(Net::none(), names.secret(me), String::from("self.example"), &root.join("storage"))).and_then(|node| node).unwrap()
        };

        let mut node = open();
        let mut done: Vec<Json> = Vec::new();
        let mut last = Json::Null;

        let failed = |steps: usize, done: &[Json], what: String| {
            let tail = &done[done.len().saturating_sub(20)..];
            json!({ "steps": steps, "failure": { "kind": "result differs from the specification's", "dates": names.dates, "channels": names.channels, "history (last is wrong)": tail, "what": what } })
        };

        for edge in walk.as_array().unwrap() {
            let edge = &edges[edge.as_u64().unwrap() as usize];
            let mut q = edge["op"]["q"].clone();
            steps += 1;

            // everyone's record of the same content is the same; only what's wrong differs
            let salt = rng.next() % 1_000_000;
            let to = &edge["to"];
            last = to["queue"].clone();

            if q["op"] == "restart" {
                node = open();
            } else {
                q["nonce"] = json!(rng.next() % 1_000_000);

                if edge["op"]["res"]["ok"] == false {
                    q["salt"] = json!(salt);
                }

                done.push(json!({ "request": q, "expected": edge["op"]["res"] }));
                watch(|| format!("walk {number}: {q}"));

                let result = match run_as(1, &runtime, names.perform(&known, &node, me, &q)) {
                    Ok(result) => result,
                    Err(panic) => return failed(steps, &done, panic)
                };

                for field in ["ok", "kind", "v", "recs", "msgs", "remaining"] {
                    if result[field] != edge["op"]["res"][field] {
                        return failed(steps, &done, format!("{field} is {} instead of {}", result[field], edge["op"]["res"][field]));
                    }
                }
            }

            // what has no effect is looked at again and again later
            if edge["from"] == edge["state"] && !rng.chance(20) {
                continue;
            }

            let tables = match run_as(1, &runtime, names.tables(&known, &node)).and_then(|tables| tables) {
                Ok(tables) => tables,
                Err(err) => return failed(steps, &done, err)
            };

            for (table, name) in tables.iter().zip(["local", "remote", "servers"]) {
                if json!(table) != to[name] {
                    return failed(steps, &done, format!("{name} is {table:?} instead of {}", to[name]));
                }
            }

        }

        if !last.is_null() {
            match run_as(1, &runtime, names.drain(&known, &node)).and_then(|messages| messages) {
                Ok(messages) if messages == last => (),
                Ok(messages) => return failed(steps, &done, format!("stored messages are {messages} instead of {last}")),
                Err(err) => return failed(steps, &done, err)
            }
        }

        unwatch();
        std::fs::remove_dir_all(&root).unwrap();
    }

    json!({ "steps": steps })
}

// ------------------------------------------------------------ flow B

/// Ops: { at: number of the server, op: request, tables or restart, q }.
pub struct ServersSubject {
    names: Names,
    root: PathBuf,
    servers: Vec<u64>,
    nodes: Vec<Node>,
    known: Arc<Known>,
    /// Whether the servers are reached through sockets.
    http: bool,
    running: Arc<Vec<Running>>
}

impl ServersSubject {
    fn open(names: &Names, root: &Path, servers: &[u64], runtime: &tokio::runtime::Runtime) -> Vec<Node> {
        servers.iter().map(|server| {
            let opened = run_as(1, runtime, new_node(Net::none(), names.secret(*server), format!("server{server}.example"), &root.join(format!("server{server}"))));
            opened.and_then(|node| node).expect("server opens")
        }).collect()
    }

    fn serve(nodes: &[Node], http: bool) -> Arc<Vec<Running>> {
        Arc::new(nodes.iter().filter(|_| http).map(|node| {
            let served = node.clone();
            let running = Running::start(move |address| async move { served.serve(address).await.map_err(|err| err.to_string()) }).expect("server starts");
            node.http_server().set_remote(running.address);
            running
        }).collect())
    }
}

fn strings(of: &Json) -> Vec<String> {
    of.as_array().unwrap().iter().map(|text| text.as_str().unwrap().to_string()).collect()
}

pub fn numbers(of: &Json) -> Vec<u64> {
    of.as_array().unwrap().iter().map(|number| number.as_u64().unwrap()).collect()
}

impl Subject for ServersSubject {
    fn new(script: &Json, runtime: &tokio::runtime::Runtime) -> Self {
        let names = Names {
            seed: script["seed"].as_u64().unwrap(),
            keys: script["keys"].as_u64().unwrap(),
            channels: strings(&script["channels"]),
            dates: numbers(&script["dates"]),
            bare: script["bare"].as_u64().unwrap()
        };

        let mut known = Known::default();

        for op in all_ops(script) {
            if let Some(q) = op.get("q") {
                names.remember(&mut known, q);
            }
        }

        let root = PathBuf::from(script["root"].as_str().unwrap());
        let servers = numbers(&script["servers"]);
        let nodes = Self::open(&names, &root, &servers, runtime);
        let http = script["http"] == true;
        let running = Self::serve(&nodes, http);
        Self { names, root, servers, nodes, known: Arc::new(known), http, running }
    }

    fn reopen(&mut self, runtime: &tokio::runtime::Runtime) {
        self.running = Arc::new(Vec::new());
        self.nodes = Self::open(&self.names, &self.root, &self.servers, runtime);
        self.running = Self::serve(&self.nodes, self.http);
    }

    fn call(op: &Json) -> Json {
        let mut q = op.get("q").cloned().unwrap_or(blank());

        // mangled requests are invalid
        if q["mangle"].as_u64().unwrap_or(0) != 0 {
            q["proof"]["ok"] = json!(false);
        }

        json!({ "op": op["op"], "at": op["at"], "q": q })
    }

    fn failed() -> Json {
        json!({ "res": { "ok": false, "kind": "refused", "v": 0, "recs": [], "msgs": [], "remaining": 0 }, "tables": [] })
    }

    async fn exec(&self, op: &Json, _base: u64) -> Result<Json, String> {
        let mut result = Self::failed();
        let at = number(op, "at") as usize - 1;
        let node = &self.nodes[at];

        if op["op"] == "tables" {
            result["tables"] = json!(self.names.tables(&self.known, node).await?);
        } else {
            result["res"] = self.names.perform(&self.known, node, self.servers[at], &op["q"]).await;
        }

        Ok(result)
    }

    fn clone(&self) -> Self {
        let Self { names, root, servers, nodes, known, http, running } = self;

        Self {
            names: Clone::clone(names),
            root: Clone::clone(root),
            servers: Clone::clone(servers),
            nodes: nodes.iter().map(Clone::clone).collect(),
            known: known.clone(),
            http: *http,
            running: running.clone()
        }
    }
}

pub fn blank() -> Json {
    json!({
        "op": "", "key": 0,
        "proof": { "by": 0, "low": false, "own": true, "ok": true },
        "cert": { "by": 0, "for": 0, "d": 0, "own": true, "ok": true },
        "who": 0, "sender": 0, "srv": 0, "ty": 0, "v": 0, "c": 1, "m": 0, "limit": -1
    })
}

/// Requests of random histories.
pub struct Requests {
    pub rng: Rng,
    /// Keys 1..=clients are those of clients, then there are those of servers.
    pub clients: usize,
    pub servers: usize,
    /// How many of the servers exist.
    pub nodes: usize,
    pub channels: usize,
    pub dates: usize,
    pub v: u64,
    /// Percentage of requests that are invalid.
    pub bad: u64,
    /// Operations, as often as they're to be chosen.
    pub ops: Vec<&'static str>,
    pub before: Vec<Json>
}

impl Requests {
    fn client(&mut self) -> usize {
        self.rng.range(1, self.clients)
    }

    fn server(&mut self) -> usize {
        self.rng.range(self.clients + 1, self.clients + self.servers)
    }

    fn anyone(&mut self) -> usize {
        self.rng.range(1, self.clients + self.servers)
    }

    fn other(&mut self, than: u64) -> usize {
        loop {
            let key = self.anyone();

            if key as u64 != than {
                return key;
            }
        }
    }

    /// A request to the at-th server, whose key this is.
    pub fn request(&mut self, op: &str, me: usize) -> Json {
        // the very same again
        if !self.before.is_empty() && self.rng.chance(6) {
            let again = self.rng.pick(&self.before).clone();

            if again["q"]["op"] == op && again["me"] == me {
                return again["q"].clone();
            }
        }

        self.v += 1;
        let mut q = blank();
        let key = if self.rng.chance(85) { self.client() } else { self.anyone() };
        let (v, salt) = (self.v, self.rng.next() % 1_000_000);
        q["op"] = json!(op);
        q["salt"] = json!(salt);
        q["c"] = json!(self.rng.range(1, self.channels));

        if ["info", "clients", "servers"].contains(&op) {
            return q;
        }

        q["key"] = json!(key);
        q["proof"]["by"] = json!(key);
        // keys of clients and those of servers are the same kind of keys
        q["who"] = json!(if self.rng.chance(90) { self.client() } else { self.anyone() });

        match op {
            "connect" => {
                q["who"] = json!(0);
                q["v"] = json!(v);
                q["ty"] = json!(self.rng.range(1, 4));
                q["cert"] = json!({ "by": key, "for": me, "d": self.rng.range(1, self.dates), "own": true, "ok": true });
            }

            "announce" => {
                let srv = if self.rng.chance(92) { self.server() } else { self.anyone() };
                q["v"] = json!(v);
                q["ty"] = json!(self.rng.range(1, 4));
                q["srv"] = json!(srv);
                q["cert"] = json!({ "by": q["who"], "for": srv, "d": self.rng.range(1, self.dates), "own": true, "ok": true });
            }

            "server" => {
                q["v"] = json!(if self.rng.chance(12) { (900 + self.clients + self.rng.range(1, self.nodes)) as u64 } else { v });
                q["who"] = json!(if self.rng.chance(92) { self.server() } else { self.anyone() });
            }

            "lookup" => {
                q["ty"] = json!(if self.rng.chance(50) { 0 } else { self.rng.range(1, 4) });

                if self.rng.chance(10) {
                    q["who"] = json!(me);
                }
            }

            "send" => {
                q["m"] = json!(v);
                q["sender"] = json!(key);

                if self.rng.chance(10) {
                    q["who"] = json!(self.anyone());
                }
            }

            "poll" => q["limit"] = json!(if self.rng.chance(40) { -1 } else { any_limit(&mut self.rng) }),
            _ => ()
        }

        if self.rng.chance(self.bad) {
            loop {
                match self.rng.below(10) {
                    0 => q["proof"]["by"] = json!(self.other(key as u64)),
                    1 => q["proof"]["low"] = json!(true),
                    2 => q["proof"]["own"] = json!(false),
                    3 => q["proof"]["ok"] = json!(false),
                    4 if q["cert"]["by"] != 0 => { let by = self.other(q["cert"]["by"].as_u64().unwrap()); q["cert"]["by"] = json!(by); }
                    5 if q["cert"]["by"] != 0 => { let server = self.other(q["cert"]["for"].as_u64().unwrap()); q["cert"]["for"] = json!(server); }
                    6 if q["cert"]["by"] != 0 => q["cert"]["own"] = json!(false),
                    7 if q["cert"]["by"] != 0 => q["cert"]["ok"] = json!(false),
                    8 if op == "send" => q["sender"] = json!(self.other(key as u64)),
                    9 => q["mangle"] = json!(self.rng.range(1, 10)),
                    _ => continue
                }

                if self.rng.chance(70) {
                    break;
                }
            }
        }

        self.before.push(json!({ "q": q, "me": me }));
        q
    }

    pub fn op(&mut self, listings: bool) -> Json {
        let at = self.rng.range(1, self.nodes);
        let me = self.clients + at;

        let what = loop {
            let what = *self.rng.pick(&self.ops);

            if listings || !["clients", "servers"].contains(&what) {
                break what;
            }
        };

        if what == "tables" {
            return json!({ "op": "tables", "at": at });
        }

        let q = self.request(what, me);
        json!({ "op": "request", "at": at, "q": q })
    }

    /// Everything that the servers know is looked at in the end.
    pub fn all(&mut self) -> Vec<Json> {
        let mut ops = Vec::new();

        for at in 1..=self.nodes {
            ops.push(json!({ "op": "tables", "at": at }));

            for op in ["clients", "servers"] {
                let mut q = blank();
                q["op"] = json!(op);
                ops.push(json!({ "op": "request", "at": at, "q": q }));
            }

            for k in 1..=self.clients + self.servers {
                for c in 1..=self.channels {
                    let mut q = blank();
                    q["op"] = json!("poll");
                    q["key"] = json!(k);
                    q["proof"]["by"] = json!(k);
                    q["c"] = json!(c);
                    ops.push(json!({ "op": "request", "at": at, "q": q }));
                }
            }
        }

        ops
    }
}

/// One server that many clients, servers and messages have been brought to, many
/// of them recorded as one `fill` event.
fn crowd(script: &Json, rng: &mut Rng, size: u64, dir: &Path, histories: &mut Histories) {
    fsgate::guard(dir);
    let runtime = runtime(1);
    let clients = size / 2 + 1;
    let keys = clients + size;
    let me = clients + 1;
    let mut script = script.clone();
    script["keys"] = json!(keys);
    script["servers"] = json!([me]);

    let mut gen = Requests {
        clients: clients as usize,
        servers: size as usize,
        nodes: 1,
        channels: strings(&script["channels"]).len(),
        dates: numbers(&script["dates"]).len(),
        v: 10,
        bad: 5,
        before: Vec::new(),
        ops: vec!["connect", "disconnect", "announce", "server", "lookup", "lookup", "lookup", "send", "send", "poll", "poll", "poll", "clients", "servers", "tables"],
        rng: Rng::new(rng.next(), 1)
    };

    // runs of requests that are alike
    let mut left: Vec<(&str, u64, u64)> = vec![
        ("connect", 1, rng.range(clients as usize / 2, clients as usize) as u64),
        ("announce", 1, rng.range(clients as usize / 2, clients as usize) as u64),
        ("server", clients + 1, keys),
        ("send", 1, size * 2)
    ];

    let (receiver, sender, channel) = (gen.client(), gen.client(), rng.range(1, gen.channels));
    let mut runs: Vec<(u64, u64, Json)> = Vec::new();

    while !left.is_empty() {
        let n = rng.below(left.len());
        let (op, from, end) = left[n];
        let to = end.min(from + rng.range(1, size as usize) as u64 - 1);

        if to == end {
            left.remove(n);
        } else {
            left[n].1 = to + 1;
        }

        let mut q = gen.request(op, me as usize);
        gen.before.clear();
        q["mangle"] = json!(0);
        q["v"] = json!(1);
        q["key"] = json!(sender);
        q["proof"] = json!({ "by": sender, "low": false, "own": true, "ok": true });

        if op != "send" && op != "server" {
            q["cert"] = json!({ "by": 0, "for": if op == "connect" { json!(me) } else { q["srv"].clone() }, "d": q["cert"]["d"], "own": true, "ok": true });
        }

        if op == "send" {
            q["who"] = json!(receiver);
            q["sender"] = json!(sender);
            q["c"] = json!(channel);
        }

        runs.push((from, to, q));
    }

    let one = |q: &Json, n: u64| {
        let mut q = q.clone();

        match q["op"].as_str().unwrap() {
            "send" => q["m"] = json!(n),
            "server" => q["who"] = json!(n),
            "announce" => { q["who"] = json!(n); q["cert"]["by"] = json!(n); }
            _ => { q["key"] = json!(n); q["proof"]["by"] = json!(n); q["cert"]["by"] = json!(n); }
        }

        q
    };

    // then anything else
    gen.v = 10 + size * 2;
    let request = |q: Json| json!({ "op": "request", "at": 1, "q": q });
    let listings = |ops: &mut Vec<Json>| {
        ops.push(json!({ "op": "tables", "at": 1 }));

        for op in ["clients", "servers"] {
            let mut q = blank();
            q["op"] = json!(op);
            ops.push(request(q));
        }
    };

    let poll = |limit: i64| {
        let mut q = blank();
        q["op"] = json!("poll");
        q["key"] = json!(receiver);
        q["proof"]["by"] = json!(receiver);
        q["c"] = json!(channel);
        q["limit"] = json!(limit);
        request(q)
    };

    let mut ops = Vec::new();
    listings(&mut ops);

    // no one knows this one
    let mut q = gen.request("lookup", me as usize);
    let by = q["key"].clone();
    q["proof"] = json!({ "by": by, "low": false, "own": true, "ok": true });
    q["mangle"] = json!(0);
    q["who"] = json!(keys);
    ops.push(request(q));

    // larger and larger portions of what's left
    ops.push(poll((size / 4) as i64));
    ops.push(poll((size + size / 4) as i64));
    ops.push(poll(any_limit(rng)));

    for _ in 0..rng.range(10, 40) {
        ops.push(gen.op(true));
    }

    ops.push(poll(-1));
    ops.push(poll(-1));
    listings(&mut ops);

    let mut all: Vec<Json> = runs.iter().flat_map(|(from, to, q)| (*from..=*to).map(|n| request(one(q, n))).collect::<Vec<_>>()).collect();
    all.extend(ops.clone());
    script["ops"] = json!(all);

    let subject = ServersSubject::new(&script, &runtime);
    let mut events = Vec::new();

    for (from, to, q) in runs {
        watch(|| format!("requests {from} to {to} of {q}"));

        let result = run_as(1, &runtime, async {
            for n in from..=to {
                let result = subject.names.perform(&subject.known, &subject.nodes[0], me, &one(&q, n)).await;

                if result["kind"] != "done" {
                    return Err(format!("request {n}: {result}"));
                }
            }

            Ok(())
        }).and_then(|result| result);

        unwatch();

        events.push(match result {
            Ok(()) => json!({ "e": "fill", "at": 1, "from": from, "to": to, "q": q }),
            Err(err) => json!({ "e": "broken fill", "what": err, "q": q })
        });
    }

    for op in ops {
        let mut call = ServersSubject::call(&op);
        call["e"] = json!("call");
        events.push(call);
        watch(|| op.to_string());
        let result = run_as(1, &runtime, subject.exec(&op, 0)).and_then(|result| result);
        unwatch();

        let mut event = match result {
            Ok(result) => result,
            Err(err) => { let mut event = ServersSubject::failed(); event["what"] = json!(err); event }
        };

        event["e"] = json!("ret");
        event["ok"] = json!(event.get("what").is_none());
        event["fault"] = json!(false);
        events.push(event);
    }

    link(&mut events);
    histories.header = json!({ "servers": [me], "keys": keys });
    histories.add(events, json!({ "size": size }));
}

/// Record histories of servers for TLC to judge.
pub fn campaign(plan: &Json, seed: u64) -> Json {
    let what = plan["what"].as_str().unwrap();
    let shard = plan["shard"].as_u64().unwrap();
    let number = |name: &str, default: u64| plan[name].as_u64().unwrap_or(default) as usize;
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{what}-{shard}"));
    let mut schedules = 0;
    let mut slow = slow(shard);
    let mut rng = Rng::new(seed, 9000 + shard * 7919);
    let start = std::time::Instant::now();
    let budget = plan["seconds"].as_f64().unwrap_or(1e9);

    for round in 0..plan["count"].as_u64().unwrap() {
        if start.elapsed().as_secs_f64() > budget {
            break;
        }

        let dir = scratch();
        let mut rng = Rng::new(rng.next(), round);
        let nodes = if what == "random" { rng.range(1, number("nodes", 1)) } else { 1 };

        let mut gen = Requests {
            clients: rng.range(2, 4),
            servers: nodes.max(2),
            nodes,
            channels: rng.range(1, 2),
            dates: rng.range(1, 4),
            v: 0,
            bad: if rng.chance(20) { 0 } else { *rng.pick(&[10, 40, 80]) },
            before: Vec::new(),
            ops: match plan["focus"].as_str() {
                Some("names") => vec!["connect", "connect", "disconnect", "disconnect", "send", "send", "send", "send", "poll", "poll", "poll", "announce", "tables"],
                Some("lookups") => vec!["connect", "connect", "disconnect", "announce", "announce", "announce", "server", "server", "lookup", "lookup", "lookup", "lookup", "lookup", "clients", "servers", "info"],
                _ => vec!["connect", "connect", "disconnect", "announce", "announce", "announce", "server", "lookup", "lookup", "lookup", "send", "send", "send", "poll", "poll", "poll", "clients", "servers", "info", "tables"]
            },
            rng: Rng::new(rng.next(), 1)
        };

        let script = json!({
            "system": "servers",
            "seed": world(seed, rng.next()),
            "guard": dir,
            "root": dir.join("storage"),
            "keys": gen.clients + gen.servers,
            "channels": channel_names(&mut rng, gen.channels),
            "dates": any_dates(&mut rng, gen.dates),
            "bare": rng.range(1, 15),
            "http": plan["http"],
            "servers": (1..=nodes).map(|at| gen.clients + at).collect::<Vec<_>>()
        });

        histories.header = json!({ "servers": script["servers"], "keys": script["keys"] });

        match what {
            "crowd" => {
                let sizes = plan["sizes"].as_array().unwrap();
                let size = sizes[(shard + round * 8) as usize % sizes.len()].as_u64().unwrap();
                crowd(&script, &mut rng, size, &dir, &mut histories);
            }

            "random" => {
                let mut ops = Vec::new();

                for _ in 0..rng.range(1, number("length", 60)) {
                    if rng.chance(3) {
                        ops.push(json!({ "op": "restart" }));
                    } else if rng.chance(4) {
                        ops.push(json!({ "op": "tick", "s": any_tick(&mut rng) }));
                    } else {
                        ops.push(gen.op(true));
                    }
                }

                ops.extend(gen.all());
                let mut script = script.clone();
                script["ops"] = json!(ops);
                record::<ServersSubject>(&script, &mut histories, json!(what));
            }

            "crash" | "fault" => {
                let lookups = plan["focus"] == "lookups";
                gen.bad = if lookups { 0 } else { gen.bad };
                let prefix: Vec<Json> = (0..if lookups { rng.range(3, 8) } else { rng.range(0, 5) }).map(|_| gen.op(false)).collect();
                gen.bad = 10;
                let mut victim = gen.op(false);

                for _ in 0..30 {
                    if lookups && rng.chance(95) && victim["q"]["op"] != "lookup" {
                        victim = gen.op(false);
                    }
                }

                let mut suffix: Vec<Json> = (0..rng.range(1, 4)).map(|_| gen.op(false)).collect();
                suffix.extend(gen.all());

                if what == "crash" {
                    record_crashes::<ServersSubject>(&script, &prefix, &victim, &suffix, &mut rng, 20, &mut histories);
                } else {
                    record_faults::<ServersSubject>(&script, &prefix, &victim, &suffix, &mut rng, &mut histories);
                }
            }

            "schedule" | "stress" => {
                gen.bad = 10;
                let free = what == "stress";
                let prefix: Vec<Json> = if free { Vec::new() } else { (0..rng.range(0, 4)).map(|_| gen.op(true)).collect() };

                let shape: Vec<usize> = if free {
                    (0..rng.range(2, 4)).map(|_| rng.range(1, 4)).collect()
                } else {
                    rng.pick(&[vec![1, 1], vec![2, 1], vec![1, 1, 1]]).clone()
                };

                let threads: Vec<Vec<Json>> = shape.iter().map(|count| (0..*count).map(|_| gen.op(true)).collect()).collect();
                let suffix = gen.all();

                if free {
                    record_stress::<ServersSubject>(&script, &threads, &suffix, &mut histories);
                } else {
                    schedules += record_schedules::<ServersSubject>(&script, &prefix, &threads, &suffix, false, number("bound", 2), number("max", 40), &mut slow, &mut rng, &mut histories);
                }
            }

            _ => unreachable!()
        }

        let _ = std::fs::remove_dir_all(&dir);
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events, "schedules": schedules })
}
