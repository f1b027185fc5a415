//! Clients against answers made up by the harness: replays walks through the
//! specification of a session and records searches through networks.

use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::net::{Net, EMPTY};
use crate::router::type_of;
use crate::script::Histories;
use crate::server::garbage;
use crate::util::*;

pub type Connected = ConnectedClientMiddleware<Net>;
type Unconnected = ClientMiddleware<Net>;

/// Whoever answers requests now.
type Responder = Box<dyn FnMut(&str, Option<&Json>) -> Result<Json, String> + Send>;

/// A network whose answers are made by the current responder.
#[derive(Clone)]
pub struct Stage(Arc<Mutex<Responder>>);

impl Stage {
    pub fn new() -> Self {
        Self(Arc::new(Mutex::new(Box::new(|_, _| Err(String::from("unreachable"))))))
    }

    pub fn play(&self, responder: impl FnMut(&str, Option<&Json>) -> Result<Json, String> + Send + 'static) {
        *self.0.lock().unwrap_or_else(|err| err.into_inner()) = Box::new(responder);
    }

    pub fn net(&self) -> Net {
        let stage = self.0.clone();

        Net::new(move |url, body| {
            let answer = (stage.lock().unwrap_or_else(|err| err.into_inner()))(&url, body.as_ref());

            Box::pin(async move {
                linger().await;
                answer
            })
        })
    }
}

pub fn secret(seed: u64, k: u64) -> SecretKey {
    key(seed, 70_000 + actual(seed, k))
}

pub fn public_of(seed: u64, k: u64) -> PublicKey {
    public(seed, 70_000 + actual(seed, k))
}

/// The one who asks.
pub const ME: u64 = 9_090;

/// The client can have the same key as one of the servers.
fn actual(seed: u64, k: u64) -> u64 {
    if k == ME && seed % 3 == 0 { 3 } else { k }
}

/// The header of the request must be a valid one of the key; its seed is returned.
pub fn header(seed: u64, who: u64, body: &Json) -> Result<u64, String> {
    let proof = body["proof"]["seed"].as_u64().ok_or("no seed")?;
    let sign = base64_decode(body["proof"]["sign"].as_str().ok_or("no signature")?).map_err(|err| err.to_string())?;

    if body["standard"] != 1 || body["public_key"] != json!(public_of(seed, who).to_base64()) {
        return Err(format!("header of {body}"));
    }

    if proof < 1 << 63 || !matches!(public_of(seed, who).verify_signature(proof.to_be_bytes(), sign), Ok(true)) {
        return Err(format!("proof of {body}"));
    }

    Ok(proof)
}

/// Bytes that aren't those of the seed.
fn other_bytes(rng: &mut Rng, seed: u64) -> Vec<u8> {
    match rng.below(7) {
        0 => (seed ^ 1).to_be_bytes().to_vec(),
        1 => seed.wrapping_add(256).to_be_bytes().to_vec(),
        2 if seed.swap_bytes() != seed => seed.to_le_bytes().to_vec(),
        3 => seed.to_string().into_bytes(),
        4 => Vec::new(),
        5 => seed.to_be_bytes()[1..].to_vec(),
        _ => (seed ^ (1 << rng.below(63))).to_be_bytes().to_vec()
    }
}

/// An answer turned into something that isn't one.
pub fn broken(rng: &mut Rng, good: &Json) -> Json {
    let mut bad = good.clone();

    // a response without content can be left out
    let fields: Vec<String> = good.as_object().unwrap().iter().filter(|(name, value)| *name != "response" || **value != json!({})).map(|(name, _)| name.clone()).collect();

    match rng.below(8) {
        0 => rng.pick(&[json!(null), json!([]), json!({}), json!("text"), json!(5), json!(true), json!([good])]).clone(),
        1 | 2 => { bad.as_object_mut().unwrap().remove(rng.pick(&fields).as_str()); bad }
        3 | 4 => { let field = rng.pick(&fields).clone(); bad[field] = rng.pick(&[json!(null), json!(-1), json!(1.5), json!(false)]).clone(); bad }
        5 => { bad["standard"] = rng.pick(&[json!(0), json!(2), json!("1"), json!(u64::MAX)]).clone(); bad }

        6 if good.get("status").is_some() => {
            bad["status"] = rng.pick(&[json!(0), json!(99), json!(101), json!(999), json!("100"), json!(100.5)]).clone();
            bad
        }

        7 if good.get("proof").is_some() => {
            bad["proof"]["sign"] = rng.pick(&[json!("not base64!"), json!(7), json!(null), json!(["AA=="])]).clone();
            bad
        }

        _ => { bad["standard"] = json!(3); bad }
    }
}

fn error(rng: &mut Rng, good: &Json) -> Json {
    let status = *rng.pick(&[200, 300, 301, 310, 311, 320, 321, 322]);
    let mut bad = if rng.chance(50) { good.clone() } else { json!({}) };
    bad["standard"] = json!(1);
    bad["status"] = json!(status);
    bad["reason"] = json!(rng.text(20));
    bad
}

pub fn success(key: &PublicKey, sign: &[u8], response: Json) -> Json {
    json!({ "standard": 1, "status": 100, "public_key": key.to_base64(), "proof": { "sign": base64_encode(sign) }, "response": response })
}

/// The signature in the answer as the specification's proof says.
fn proof(seed: u64, a: &Json, proof_seed: u64, old: &[u64], rng: &mut Rng) -> Vec<u8> {
    let old: Vec<u64> = old.iter().copied().filter(|other| *other != proof_seed).collect();

    let bytes = match a["over"].as_str().unwrap() {
        "own" => proof_seed.to_be_bytes().to_vec(),
        "old" if !old.is_empty() => rng.pick(&old).to_be_bytes().to_vec(),
        _ => other_bytes(rng, proof_seed)
    };

    let sign = secret(seed, a["by"].as_u64().unwrap()).create_signature(bytes);

    if a["ok"] == true { sign } else { garbage(rng, &sign) }
}

fn finish(a: &Json, good: Json, rng: &mut Rng) -> Result<Json, String> {
    match (a["shape"].as_str().unwrap(), a["status"].as_str().unwrap()) {
        ("ok", "success") => Ok(good),
        ("ok", _) => Ok(error(rng, &good)),

        _ => match rng.below(6) {
            0 => Err(String::from("unreachable")),
            1 => Err(EMPTY.to_string()),
            _ => Ok(broken(rng, &good))
        }
    }
}

fn certificate(seed: u64, by: u64, server: &PublicKey, rng: &mut Rng) -> ConnectionCertificate {
    let token = ConnectionToken::new(rng.number(), server.clone());
    let sign = secret(seed, by).create_signature(token.to_bytes());
    ConnectionCertificate { token, sign }
}

/// A record of the client at the server, wrong in the given way.
pub fn client_record(seed: u64, who: u64, ty: Option<ClientType>, server: &PublicKey, wrong: &str, rng: &mut Rng) -> Client {
    let mut info = any_info(rng);

    if let Some(ty) = ty {
        info.client_type = ty;
    }

    let other = who + 1;

    let cert = match wrong {
        "for" => certificate(seed, who, &public_of(seed, 60 + rng.next() % 3), rng),
        "by" => {
            let by = if rng.chance(50) || actual(seed, ME) == actual(seed, who) { other } else { ME };
            certificate(seed, by, server, rng)
        }
        "key" => certificate(seed, other, server, rng),

        "sign" => {
            let mut cert = certificate(seed, who, server, rng);
            cert.sign = garbage(rng, &cert.sign);
            cert
        }

        // signed by the right one, but with another date
        "date" => {
            let mut cert = certificate(seed, who, server, rng);
            cert.token.auth_date ^= 1 << rng.below(64);
            cert
        }

        _ => certificate(seed, who, server, rng)
    };

    if wrong == "type" {
        let types = [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File];
        let others: Vec<ClientType> = types.into_iter().filter(|other| Some(*other) != ty).collect();
        info.client_type = *rng.pick(&others);
    }

    Client::new(public_of(seed, if wrong == "key" { other } else { who }), cert, info)
}

// ---------------------------------------------------------------- sessions

struct Seen {
    seeds: HashSet<u64>,
    old: Vec<u64>,
    wrong: Option<String>
}

enum State {
    Free(Unconnected),
    Connected(Connected)
}

/// Replays walks through MCSession.
pub fn sessions(plan: &Json, seed: u64) -> Json {
    let edges = plan["edges"].as_array().unwrap();
    let runtime = unhurried(1, seed);
    let mut steps = 0;
    let seen = Arc::new(Mutex::new(Seen { seeds: HashSet::new(), old: Vec::new(), wrong: None }));

    for (number, walk) in plan["walks"].as_array().unwrap().iter().enumerate() {
        let mut rng = Rng::new(seed, 4100 + number as u64);
        let seed = world(seed, number as u64);
        let stage = Stage::new();
        let info = any_info(&mut rng);
        let mut state = State::Free(Unconnected::new(stage.net(), ClientDriver::new(info.clone(), secret(seed, ME))));
        let mut done: Vec<Json> = Vec::new();

        for edge in walk.as_array().unwrap() {
            let edge = &edges[edge.as_u64().unwrap() as usize];
            let op = &edge["op"];
            steps += 1;
            done.push(op.clone());
            watch(|| format!("walk {number}: {op}"));

            let mut step = Step { seed, op, info: &info, stage: &stage, seen: &seen, rng: &mut rng };
            let result = guarded(|| runtime.block_on(step.perform(&mut state)));
            let wrong = seen.lock().unwrap().wrong.take();

            let connected = match &state {
                State::Free(_) => 0,
                State::Connected(client) => (1..=3).find(|k| public_of(seed, *k) == client.connected_server().public_key).unwrap_or(99)
            };

            let what = match (result, wrong) {
                (Err(panic), _) => panic,
                (_, Some(wrong)) => wrong,
                (Ok(Err(what)), _) => what,
                (Ok(Ok(ok)), _) if json!(ok) != op["ok"] => format!("accepted: {ok}"),
                _ if json!(connected) != edge["to"] => format!("connected to {connected} instead of {}", edge["to"]),
                _ => continue
            };

            let tail = &done[done.len().saturating_sub(10)..];
            return json!({ "steps": steps, "failure": { "kind": "result differs from the specification's", "history (last is wrong)": tail, "what": what } });
        }
    }

    unwatch();
    json!({ "steps": steps })
}

struct Step<'a> {
    seed: u64,
    op: &'a Json,
    info: &'a ClientInfo,
    stage: &'a Stage,
    seen: &'a Arc<Mutex<Seen>>,
    rng: &'a mut Rng
}

impl Step<'_> {
    /// Answer requests to the endpoint as the specification says; the content of a
    /// request and the body of its answer are for the caller.
    fn answer(&mut self, address: String, endpoint: &'static str, check: impl Fn(&Json) -> bool + Send + 'static, response: Json) {
        let (seed, seen, mut rng) = (self.seed, self.seen.clone(), Rng::new(self.rng.next(), 1));
        let (info, a) = (self.op["info"].clone(), self.op["a"].clone());

        self.stage.play(move |url, body| {
            let mut seen = seen.lock().unwrap();

            let Some(body) = body else {
                if url != format!("{address}/api/v1/info") {
                    seen.wrong = Some(format!("GET {url}"));
                }

                let stated = if info["low"] == true { *rng.pick(&[0, 1, (1 << 63) - 1, rng.clone().next() >> 1]) } else { *rng.pick(&[1 << 63, u64::MAX, rng.clone().next() | 1 << 63]) };
                let sign = proof(seed, &info, stated, &[], &mut rng);

                let good = json!({
                    "standard": 1,
                    "server": { "public_key": public_of(seed, info["key"].as_u64().unwrap()).to_base64() },
                    "proof": { "seed": stated, "sign": base64_encode(sign) }
                });

                return finish(&info, good, &mut rng);
            };

            if url != format!("{address}/api/v1/{endpoint}") {
                seen.wrong = Some(format!("POST {url} instead of {address}/api/v1/{endpoint}"));
            }

            match header(seed, ME, body) {
                Ok(proof_seed) => {
                    if !seen.seeds.insert(proof_seed) {
                        seen.wrong = Some(format!("seed {proof_seed} repeats"));
                    }

                    if !check(&body["request"]) {
                        seen.wrong = Some(format!("request {body}"));
                    }

                    let sign = proof(seed, &a, proof_seed, &seen.old, &mut rng);
                    let good = success(&public_of(seed, a["key"].as_u64().unwrap()), &sign, response.clone());
                    seen.old.push(proof_seed);

                    if seen.old.len() > 20 {
                        seen.old.remove(0);
                    }

                    finish(&a, good, &mut rng)
                }

                Err(wrong) => {
                    seen.wrong = Some(wrong);
                    Err(String::from("unreachable"))
                }
            }
        });
    }

    /// Another client, a server, or the client itself.
    fn anyone(&mut self) -> u64 {
        *self.rng.pick(&[50, 51, 52, ME, 1, 2, 3])
    }

    async fn perform(&mut self, state: &mut State) -> Result<bool, String> {
        let name = self.op["name"].as_str().unwrap();
        let seed = self.seed;
        let me = public_of(seed, ME);

        match (name, &*state) {
            ("info", state) => {
                let address = format!("{}.example", self.rng.next());
                self.answer(format!("http://{address}"), "", |_| false, Json::Null);

                let free = match state {
                    State::Free(client) => client.clone(),
                    State::Connected(client) => client.disconnected()
                };

                match free.get_info(&address).await {
                    Ok(info) if info.public_key == public_of(seed, self.op["info"]["key"].as_u64().unwrap()) => Ok(true),
                    Ok(_) => Err(String::from("info of another key")),
                    Err(_) => Ok(false)
                }
            }

            ("connect" | "connectto", State::Free(client)) => {
                let address = format!("{}.example:{}", self.rng.next(), self.rng.below(65536));
                let info = self.info.to_json().unwrap();
                let expected = public_of(seed, if name == "connect" { self.op["info"]["key"].as_u64().unwrap() } else { self.op["key"].as_u64().unwrap() });
                let sent = Arc::new(Mutex::new(Json::Null));

                self.answer(format!("http://{address}"), "connect", {
                    let (sent, me, expected) = (sent.clone(), me.clone(), expected.clone());

                    move |request| {
                        *sent.lock().unwrap() = request["certificate"].clone();
                        let cert = ConnectionCertificate::from_json(&request["certificate"]);
                        request["client"] == info && cert.is_ok_and(|cert| matches!(cert.validate(&me, &expected), Ok(true)))
                    }
                }, json!({}));

                let result = match name {
                    "connect" => client.connect(&address).await,
                    _ => client.connect_to(&address, expected.clone()).await
                };

                let Ok(client) = result else {
                    return Ok(false);
                };

                let cert = client.connection_certificate();

                if *client.connected_server() != Server::new(expected.clone(), &address) {
                    return Err(format!("connected to {:?}", client.connected_server()));
                }

                if !matches!(cert.validate(&me, &expected), Ok(true)) || cert.to_json().unwrap() != *sent.lock().unwrap() || now().abs_diff(cert.token.auth_date) > 30 {
                    return Err(format!("certificate {cert:?}"));
                }

                if client.get_client() != Client::new(me, cert.clone(), self.info.clone()) {
                    return Err(String::from("own record"));
                }

                *state = State::Connected(client);
                Ok(true)
            }

            ("disconnect", State::Connected(client)) => {
                self.answer(format!("http://{}", client.connected_server().address), "disconnect", |_| true, json!({}));

                let Ok(client) = client.clone().disconnect().await else {
                    return Ok(false);
                };

                *state = State::Free(client);
                Ok(true)
            }

            ("announce", State::Connected(client)) => {
                let address = format!("http{}://{}.example", rng_s(self.rng), self.rng.next());

                self.answer(address.clone(), "announce", {
                    let expected = json!({
                        "announce": "client",
                        "client": client.get_client().to_json().unwrap(),
                        "server": client.connected_server().to_json().unwrap()
                    });

                    move |request| ["announce", "client", "server"].iter().all(|field| request[field] == expected[field])
                }, json!({}));

                Ok(client.announce(&address).await.is_ok())
            }

            ("send", State::Connected(client)) => {
                let address = format!("http{}://{}.example", rng_s(self.rng), self.rng.next());
                let receiver = public_of(seed, self.anyone());
                let channel = self.rng.text(20);
                let message = Message::new(self.rng.text(100), self.rng.text(90), any_encoding(self.rng));

                self.answer(address.clone(), "send", {
                    let (channel, message, receiver) = (channel.clone(), message.to_json().unwrap(), receiver.to_base64());
                    let (me, server) = (me.to_base64(), client.connected_server().to_json().unwrap());
                    let cert = client.connection_certificate().to_json().unwrap();

                    move |request| {
                        let sender = &request["sender"];

                        request["receiver"]["public_key"] == json!(receiver) && request["channel"] == json!(channel) && request["message"] == message &&
                            sender["server"] == server && sender["client"]["public_key"] == json!(me) && sender["client"]["certificate"] == cert
                    }
                }, json!({}));

                Ok(client.send(&address, receiver, channel, message).await.is_ok())
            }

            ("poll", State::Connected(client)) => {
                let channel = self.rng.text(20);
                let limit = if self.rng.chance(50) { Some(self.rng.number()) } else { None };
                let remaining = self.rng.number();

                let messages: Vec<MessageInfo> = (0..self.rng.below(4)).map(|_| {
                    let sender = Sender::new(any_client(seed, self.rng), any_server(seed, self.rng));
                    let message = Message::new(self.rng.text(100), self.rng.text(90), any_encoding(self.rng));
                    MessageInfo::new(sender, self.rng.text(10), message, self.rng.number())
                }).collect();

                let body = json!({ "messages": messages.iter().map(|info| info.to_json().unwrap()).collect::<Vec<_>>(), "remaining": remaining });

                self.answer(format!("http://{}", client.connected_server().address), "poll", {
                    let channel = channel.clone();
                    move |request| request["channel"] == json!(channel) && request["limit"] == json!(limit)
                }, body);

                match client.poll(channel, limit).await {
                    Ok(result) if result == (messages, remaining) => Ok(true),
                    Ok(result) => Err(format!("polled {result:?}")),
                    Err(_) => Ok(false)
                }
            }

            ("lookup", State::Connected(client)) => {
                let wrong = self.op["a"]["rec"].as_str().unwrap();
                let ty = if wrong == "type" || self.rng.chance(50) { type_of(1 + self.rng.next() % 4) } else { None };
                let who = self.anyone();
                let answering = public_of(seed, self.op["a"]["key"].as_u64().unwrap());
                let available = self.rng.chance(50);

                let place = if self.rng.chance(50) {
                    Server::new(answering, &client.connected_server().address)
                } else {
                    any_server(seed, self.rng)
                };

                let record = client_record(seed, who, ty, &place.public_key, wrong, self.rng);
                let mut body = json!({ "disposition": "local", "client": record.to_json().unwrap(), "available": available });

                if place.address != client.connected_server().address {
                    body["disposition"] = json!("remote");
                    body["server"] = place.to_json().unwrap();
                }

                self.answer(format!("http://{}", client.connected_server().address), "lookup", {
                    let who = public_of(seed, who).to_base64();
                    move |request| request["public_key"] == json!(who) && request["type"] == json!(ty.map(|ty| ty.to_string()))
                }, body);

                match client.lookup(public_of(seed, who), ty).await {
                    Ok(Some(found)) if found == (record, place, available) => Ok(true),
                    Ok(Some(found)) => Err(format!("found {found:?}")),
                    _ => Ok(false)
                }
            }

            _ => Err(String::from("operation doesn't fit the state"))
        }
    }
}

fn rng_s(rng: &mut Rng) -> &'static str {
    if rng.chance(50) { "s" } else { "" }
}

// ----------------------------------------------------------------- lookups

/// A random network: chains, rings, trees, everybody knows everybody.
fn random_net(rng: &mut Rng) -> Json {
    let count = match rng.below(100) {
        0..=2 => if rng.chance(10) { rng.range(1000, 1400) } else { rng.range(100, 300) },
        3..=9 => rng.range(20, 60),
        _ => rng.range(2, 12)
    };

    let shape = if count < 100 { rng.below(5) } else { *rng.pick(&[0, 2, 5]) };
    // large ones are searched to their ends, mostly
    let large = count >= 100;
    let last = if large && rng.chance(70) { count - rng.below(3) } else { rng.range(0, count) };
    let hints = if large { if shape == 0 || rng.chance(50) { 100 } else { 97 } } else { 70 };

    let net: Vec<Json> = (1..=count).map(|a| {
        let mut to: Vec<usize> = match shape {
            0 => vec![a % count + 1],
            1 => vec![a % count + 1, a.saturating_sub(1).max(1), a],
            2 => vec![(2 * a).min(count), (2 * a + 1).min(count)],
            3 => (1..=count).collect(),
            5 if a == 1 || a % 100 == 1 && rng.chance(50) => (1..=count).collect(),
            5 if rng.chance(90) => Vec::new(),
            _ => (0..rng.below(4)).map(|_| rng.range(1, count)).collect()
        };

        rng.shuffle(&mut to);

        let kind = match rng.below(100) {
            _ if a == last => *rng.pick(&["local", "remote"]),
            n if n < hints => "hint",
            70..=71 => "local",
            72..=73 => "remote",
            _ => *rng.pick(&["down", "garbage", "error", "unsigned", "wrong"])
        };

        // the connected server mostly has something to tell
        let kind = if a == 1 && rng.chance(80) { "hint" } else { kind };
        json!({ "kind": kind, "to": if kind == "hint" { to } else { Vec::new() } })
    }).collect();

    json!(net)
}

/// Records searches through the networks of the plan, or random ones.
pub fn lookups(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut rng = Rng::new(seed, 4300 + shard);
    let runtime = unhurried(1, seed);
    let stage = Stage::new();
    let empty = Vec::new();
    let cases = plan["cases"].as_array().unwrap_or(&empty);
    let count = plan["count"].as_u64().unwrap_or(cases.len() as u64);

    for number in 0..count {
        let net = if cases.is_empty() { random_net(&mut rng) } else { cases[number as usize % cases.len()].clone() };
        let about = json!({ "number": number });
        watch(|| format!("lookup {number}: {net}"));
        let events = guarded(|| runtime.block_on(lookup(world(seed, number), &stage, &net, &mut rng)));
        histories.header = json!({ "net": net });
        histories.add(events.unwrap_or_else(|panic| vec![json!({ "e": "panic", "what": panic })]), about);
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}

/// A client that is connected to the server of the key at the address.
async fn connect(seed: u64, stage: &Stage, address: &str, key: u64) -> Connected {
    stage.play(move |_, body| {
        let proof_seed = header(seed, ME, body.unwrap())?;
        Ok(success(&public_of(seed, key), &secret(seed, key).create_signature(proof_seed.to_be_bytes()), json!({})))
    });

    let info = any_info(&mut Rng::new(seed, key));
    let free = Unconnected::new(stage.net(), ClientDriver::new(info, secret(seed, ME)));
    free.connect_to(address, public_of(seed, key)).await.expect("connection")
}

pub fn connected(seed: u64, stage: &Stage, runtime: &tokio::runtime::Runtime, address: &str, key: u64) -> Connected {
    runtime.block_on(connect(seed, stage, address, key))
}

/// Different addresses, some of them alike.
pub fn some_addresses(count: usize, rng: &mut Rng) -> Vec<String> {
    let salt = rng.next() % 1000;
    let style = rng.below(9);

    (1..=count).map(|a| match if style > 7 { rng.below(7) } else { style } {
        0 => format!("10.0.{}.{a}:80", salt % 256),
        1 => format!("10.0.0.{}:{a}", salt % 256),
        2 => format!("server{salt}.example/{a}"),
        3 => "serverexample".chars().enumerate().map(|(i, c)| if a >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        4 => format!("{a}.{salt}.example:80"),
        5 => format!("server.example:{salt}/?{}#{a}", a / 2),
        6 => format!("server{}.{salt}.example{}", a / 3, ["", "/", "//"][a % 3]),
        _ => format!("{}{salt}.{a}", rng.text(5).replace("/api/v1", ""))
    }).collect()
}

async fn lookup(seed: u64, stage: &Stage, net: &Json, rng: &mut Rng) -> Vec<Json> {
    let net = net.as_array().unwrap();
    let ty = type_of(rng.next() % 5);
    let start = 1 + rng.next() % 3;
    let server = 4 + rng.next() % 30;
    let who = *rng.pick(&[50, 50, 50, ME, start, server]);
    let addresses = some_addresses(net.len(), rng);

    let key_of = |a: usize| if a == 1 { start } else { 4 + a as u64 % 30 };
    let hints = |of: &Json, rng: &mut Rng| -> Vec<Json> {
        let mut servers: Vec<Json> = of.as_array().unwrap().iter().map(|to| {
            let to = to.as_u64().unwrap() as usize;
            let key = if rng.chance(80) { key_of(to) } else { rng.next() % 30 };
            Server::new(public_of(seed, key), &addresses[to - 1]).to_json().unwrap()
        }).collect();

        // the same ones again
        for _ in 0..servers.len() {
            if rng.chance(20) {
                let again = rng.pick(&servers).clone();
                servers.push(again);
            }
        }

        rng.shuffle(&mut servers);
        servers
    };

    let mut records: Vec<Option<(Client, Server, bool)>> = Vec::new();
    let mut bodies: Vec<Json> = Vec::new();

    for (at, answer) in net.iter().enumerate() {
        let kind = answer["kind"].as_str().unwrap();
        let here = Server::new(public_of(seed, key_of(at + 1)), &addresses[at]);
        let available = rng.chance(50);
        let local = kind == "local" || kind != "remote" && rng.chance(50);

        let place = if local {
            here
        } else if rng.chance(50) {
            Server::new(public_of(seed, 4 + rng.next() % 30), rng.pick(&addresses))
        } else {
            Server::new(public_of(seed, 4 + rng.next() % 30), rng.text(20))
        };

        let wrong = if kind == "wrong" {
            *rng.pick(if ty.is_some() { &["key", "type", "for", "by", "sign", "date"][..] } else { &["key", "for", "by", "sign", "date"][..] })
        } else { "right" };

        let mut record = client_record(seed, who, ty, &place.public_key, wrong, rng);
        record.info.address = Some(format!("at {at}"));
        let mut body = json!({ "disposition": "local", "client": record.to_json().unwrap(), "available": available });

        if !local {
            body["disposition"] = json!("remote");
            body["server"] = place.to_json().unwrap();
        }

        if kind == "hint" {
            body = json!({ "disposition": "hint", "servers": hints(&answer["to"], rng) });
        } else if ["unsigned", "garbage", "error"].contains(&kind) && rng.chance(50) {
            // hints that no one may follow
            let mut servers = hints(&json!((1..=net.len()).collect::<Vec<_>>()), rng);
            servers.push(Server::new(public_of(seed, 4), "stranger.example").to_json().unwrap());
            body = json!({ "disposition": "hint", "servers": servers });
        }

        records.push(if ["local", "remote"].contains(&kind) { Some((record, place, available)) } else { None });
        bodies.push(body);
    }

    let client = connect(seed, stage, &addresses[0], start).await;
    let events: Arc<Mutex<Vec<Json>>> = Arc::default();

    stage.play({
        let events = events.clone();
        let at: HashMap<String, usize> = addresses.iter().enumerate().map(|(at, address)| (format!("http://{address}/api/v1/lookup"), at)).collect();
        let kinds: Vec<String> = net.iter().map(|answer| answer["kind"].as_str().unwrap().to_string()).collect();
        let keys: Vec<u64> = (1..=net.len()).map(key_of).collect();
        let mut rng = Rng::new(rng.next(), 2);
        let wanted = (json!(public_of(seed, who).to_base64()), json!(ty.map(|ty| ty.to_string())));

        move |url, body| {
            let mut events = events.lock().unwrap();

            let Some(at) = at.get(url).copied() else {
                events.push(json!({ "e": "stranger", "url": url }));
                return Err(String::from("unreachable"));
            };

            let Some(body) = body else {
                events.push(json!({ "e": "no lookup", "url": url }));
                return Err(String::from("unreachable"));
            };

            events.push(json!({ "e": "ask", "at": at + 1 }));

            let proof_seed = match header(seed, ME, body) {
                Ok(proof_seed) if body["request"]["public_key"] == wanted.0 && body["request"]["type"] == wanted.1 => proof_seed,

                _ => {
                    events.push(json!({ "e": "wrong request", "body": body.to_string() }));
                    return Err(String::from("unreachable"));
                }
            };

            let kind = kinds[at].as_str();
            let mut key = keys[at];
            let mut signed = proof_seed.to_be_bytes().to_vec();
            let mut spoil = false;

            if kind == "unsigned" {
                match rng.below(3) {
                    0 => signed = other_bytes(&mut rng, proof_seed),
                    1 => key += 1,
                    _ => spoil = true
                }
            }

            let mut sign = secret(seed, key).create_signature(signed);

            if spoil {
                sign = garbage(&mut rng, &sign);
            }

            let good = success(&public_of(seed, keys[at]), &sign, bodies[at].clone());

            match kind {
                "down" => Err(rng.text(10) + "."),
                "garbage" if rng.chance(20) => Err(EMPTY.to_string()),
                "garbage" => Ok(broken(&mut rng, &good)),
                "error" => Ok(error(&mut rng, &good)),
                _ => Ok(good)
            }
        }
    });

    let result = client.lookup(public_of(seed, who), ty).await;
    let mut events = std::mem::take(&mut *events.lock().unwrap());

    events.push(match result {
        Err(_) => json!({ "e": "ret", "is": "error", "at": 0 }),
        Ok(None) => json!({ "e": "ret", "is": "none", "at": 0 }),
        Ok(Some(found)) => json!({ "e": "ret", "is": "found", "at": records.iter().position(|record| record.as_ref() == Some(&found)).map_or(-1, |at| at as i64 + 1) })
    });

    events
}
