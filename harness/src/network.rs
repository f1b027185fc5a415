//! Networks of several servers and clients of the library.

use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, Weak};

use hyperborealib::drivers::server::messages_inbox::MessagesInbox;
use hyperborealib::drivers::server::router::Router;
use hyperborealib::drivers::server::traversal::Traversal;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{
    AnnounceRequest, AnnounceResponse, Client, MessageInfo, PollRequest, PollResponse, Response, Server
};
use serde_json::{json, Value as Json};

use crate::fsgate;
use crate::http::Running;
use crate::net::{new_node, Net, Node};
use crate::router::type_of;
use crate::sched::{self, Explorer, Log};
use crate::script::{small, Histories};
use crate::server::numbers;
use crate::util::*;

type Connected = ConnectedClientMiddleware<Net>;
type Unconnected = ClientMiddleware<Net>;

/// Dates are counted from this many seconds before a history.
const BEFORE: u64 = 50_000;

/// What passes between a client and the network during one operation.
#[derive(Default)]
struct Wire {
    requests: usize,
    /// The request that gets lost, or its answer.
    lose: Option<(usize, bool)>,
    /// Date of the certificate in a request to connect.
    date: Option<u64>
}

struct Session {
    free: Unconnected,
    connected: Option<Connected>,
    info: ClientInfo
}

struct Sent {
    sender: Sender,
    message: Message,
    content: Vec<u8>,
    by: u64,
    to: u64
}

struct World {
    seed: u64,
    base: u64,
    root: PathBuf,
    hosts: Vec<u64>,
    node_keys: Vec<u64>,
    keys: u64,
    who: Vec<u64>,
    addresses: Vec<String>,
    channels: Vec<String>,
    http: bool,
    nodes: Mutex<Vec<Node>>,
    up: Mutex<Vec<bool>>,
    running: Mutex<Vec<Option<Running>>>,
    sessions: Vec<(Mutex<Session>, Arc<Mutex<Wire>>, Net)>,
    sent: Mutex<HashMap<u64, Sent>>,
    strange: Mutex<Vec<String>>
}

fn blank(op: &str) -> Json {
    json!({ "op": op, "s": 0, "n": 0, "at": 0, "key": 0, "a": 0, "k": 0, "ty": 0, "r": 0, "ch": 1, "m": 0, "limit": -1, "lossy": false })
}

fn number(of: &Json, name: &str) -> u64 {
    of[name].as_u64().unwrap_or_else(|| panic!("{name} in {of}"))
}

fn addresses(rng: &mut Rng, count: usize) -> Vec<String> {
    (0..count).map(|n| match rng.below(5) {
        0 => format!("node{n}.example"),
        1 => format!("127.0.0.{n}:8001"),
        2 => format!("example.org/hyp/{n}"),
        3 => format!("[::{n}]:80{n}"),
        _ => format!("{n}.{}.example:{}", rng.next() % 1000, rng.range(1, 65535))
    }).collect()
}

impl World {
    fn new(script: &Json, root: &Path, runtime: &tokio::runtime::Runtime) -> Arc<Self> {
        let net = &script["net"];
        let seed = number(script, "seed");
        let mut rng = Rng::new(seed, 31);
        let hosts = numbers(&net["host"]);
        let who = numbers(&net["who"]);
        let types = numbers(&net["ty"]);
        let addresses = addresses(&mut rng, hosts.len());

        let world = Arc::new_cyclic(|weak: &Weak<Self>| {
            let sessions = who.iter().zip(&types).enumerate().map(|(s, (k, ty))| {
                let wire = Arc::new(Mutex::new(Wire::default()));
                let net = Self::net(weak.clone(), Some(wire.clone()));
                // sessions of a client differ in their addresses
                let info = ClientInfo::new(type_of(*ty).unwrap(), if who.iter().filter(|other| *other == k).count() > 1 || rng.chance(50) { Some(format!("{}{s}", rng.text(10))) } else { None });
                let free = Unconnected::new(net.clone(), ClientDriver::new(info.clone(), key(seed, 70_000 + k)));
                (Mutex::new(Session { free, connected: None, info }), wire, net)
            }).collect();

            Self {
                seed,
                base: now() - BEFORE,
                root: root.to_path_buf(),
                node_keys: numbers(&net["key"]),
                keys: number(script, "keys"),
                hosts,
                who,
                addresses,
                channels: script["channels"].as_array().unwrap().iter().map(|name| name.as_str().unwrap().to_string()).collect(),
                http: script["http"] == true,
                nodes: Mutex::default(),
                up: Mutex::default(),
                running: Mutex::default(),
                sessions,
                sent: Mutex::default(),
                strange: Mutex::default()
            }
        });

        for n in 1..=world.node_keys.len() {
            let (node, running) = run_as(1, runtime, world.open(Arc::downgrade(&world), n)).unwrap();
            world.nodes.lock().unwrap().push(node);
            world.running.lock().unwrap().push(running);
            world.up.lock().unwrap().push(true);
        }

        world
    }

    async fn open(&self, me: Weak<Self>, n: usize) -> (Node, Option<Running>) {
        let address = self.addresses[self.hosts.iter().position(|host| *host == n as u64).unwrap_or(0)].clone();
        let node = new_node(Self::net(me, None), self.secret(self.node_keys[n - 1]), address, &self.root.join(format!("node{n}"))).await.expect("server opens");

        let running = self.http.then(|| {
            let served = node.clone();
            let running = Running::start(move |address| async move { served.serve(address).await.map_err(|err| err.to_string()) }).expect("server starts");
            node.http_server().set_remote(running.address);
            running
        });

        (node, running)
    }

    fn secret(&self, k: u64) -> SecretKey {
        key(self.seed, 70_000 + k)
    }

    fn public(&self, k: u64) -> PublicKey {
        public(self.seed, 70_000 + k)
    }

    fn key_of(&self, key: &PublicKey) -> u64 {
        (1..=self.keys).find(|k| self.public(*k) == *key).unwrap_or(0)
    }

    fn address_of(&self, text: &str) -> u64 {
        self.addresses.iter().position(|address| address == text).map_or(0, |at| at as u64 + 1)
    }

    fn node(&self, n: u64) -> Node {
        self.nodes.lock().unwrap()[n as usize - 1].clone()
    }

    /// The way of requests to the servers.
    fn net(world: Weak<Self>, wire: Option<Arc<Mutex<Wire>>>) -> Net {
        Net::new(move |url, body| {
            let (world, wire) = (world.upgrade().expect("world"), wire.clone());
            Box::pin(async move {
                let answer = world.transfer(wire, url, body).await;
                linger().await;
                answer
            })
        })
    }

    async fn transfer(&self, wire: Option<Arc<Mutex<Wire>>>, url: String, body: Option<Json>) -> Result<Json, String> {
        let mut lost = None;

        if let Some(wire) = wire {
            let mut wire = wire.lock().unwrap();
            wire.requests += 1;
            lost = wire.lose.filter(|(number, _)| *number == wire.requests).map(|(_, answer)| answer);

            if url.ends_with("/connect") {
                let certificate = body.as_ref().map(|body| ConnectionCertificate::from_json(&body["request"]["certificate"]));
                wire.date = certificate.and_then(Result::ok).map(|certificate| certificate.token.auth_date);
            }
        }

        let place = url.split_once("://").filter(|(scheme, _)| ["http", "https"].contains(scheme)).and_then(|(_, rest)| {
            self.addresses.iter().enumerate().find_map(|(at, address)| rest.strip_prefix(address.as_str()).filter(|path| path.starts_with('/')).map(|path| (at, path.to_string())))
        });

        let Some((at, path)) = place else {
            self.strange.lock().unwrap().push(url);
            return Err(String::from("unreachable"));
        };

        let host = self.hosts[at];

        if lost == Some(false) || host == 0 || !self.up.lock().unwrap()[host as usize - 1] {
            return Err(String::from("unreachable"));
        }

        let node = self.node(host);
        let answer = node.http_server().call(&path, body).await;
        if lost == Some(true) { Err(String::from("connection reset")) } else { answer }
    }

    /// Session and date that the record of a client has, if it's right.
    fn record(&self, client: &Client, server: &PublicKey) -> Option<(u64, i64, u64)> {
        let s = self.sessions.iter().enumerate().position(|(s, (session, _, _))| {
            self.public(self.who[s]) == client.public_key && session.lock().unwrap().info == client.info
        })?;

        let valid = client.certificate.token.public_key == *server && matches!(client.certificate.validate(&client.public_key, server), Ok(true));
        valid.then(|| (self.who[s], small(client.certificate.token.auth_date.wrapping_sub(self.base)) * 10 + s as i64 + 1, self.key_of(server)))
    }

    fn table(&self, records: impl Iterator<Item = Option<(u64, i64)>>) -> Vec<i64> {
        let mut table = vec![0; self.keys as usize];

        for record in records {
            match record {
                Some((k, v)) if k > 0 && table[k as usize - 1] == 0 => table[k as usize - 1] = v,
                _ => return vec![-1; self.keys as usize]
            }
        }

        table
    }

    fn locals(&self, clients: &[Client], server: &PublicKey) -> Vec<i64> {
        self.table(clients.iter().map(|client| self.record(client, server).map(|(k, v, _)| (k, v))))
    }

    fn remotes(&self, clients: &[(Client, Server)]) -> Vec<i64> {
        self.table(clients.iter().map(|(client, server)| {
            let at = self.address_of(&server.address);
            self.record(client, &server.public_key).filter(|(_, _, key)| at > 0 && self.hosts[at as usize - 1] > 0 && self.node_keys[self.hosts[at as usize - 1] as usize - 1] == *key).map(|(k, v, _)| (k, v * 10 + at as i64))
        }))
    }

    fn servers(&self, servers: &[Server]) -> Vec<i64> {
        self.table(servers.iter().map(|server| match self.address_of(&server.address) {
            0 => None,
            at => Some((self.key_of(&server.public_key), at as i64))
        }))
    }

    /// The polled messages, as far as they're right and can be read by the one who polls.
    fn messages(&self, infos: &[MessageInfo], who: u64, channel: &str) -> Json {
        let sent = self.sent.lock().unwrap();

        infos.iter().map(|info| {
            let by = self.key_of(&info.sender.client.public_key);

            let known = sent.iter().find(|(_, sent)| {
                sent.by == by && sent.to == who && sent.sender == info.sender && sent.message == info.message && info.channel == channel &&
                    matches!(info.message.read(&self.secret(who), &info.sender.client.public_key), Ok(content) if content == sent.content)
            });

            json!({ "m": known.map_or(-1, |(m, _)| *m as i64), "by": by })
        }).collect()
    }

    /// The text that leads to where the operation goes.
    fn target(&self, c: &Json, rng: &mut Rng) -> String {
        match number(c, "at") {
            0 => {
                let key = self.public(number(c, "k")).to_base64();
                let scheme = *rng.pick(&["hyp", "hyperborea"]);

                match type_of(number(c, "ty")) {
                    None => format!("{scheme}://{key}"),
                    Some(ty) => match (ty, rng.chance(50)) {
                        (ClientType::Thin, true) => format!("{scheme}-client://{key}"),
                        (ClientType::Server, true) => format!("{scheme}-server://{key}"),
                        (ClientType::File, true) => format!("{scheme}-file://{key}"),
                        (ClientType::Thin, false) => format!("{scheme}://thin:{key}"),
                        (ClientType::Server, false) => format!("{scheme}://server:{key}"),
                        (ClientType::File, false) => format!("{scheme}://file:{key}"),
                        (ClientType::Thick, _) => format!("{scheme}://thick:{key}")
                    }
                }
            }

            at => format!("{}://{}", rng.pick(&["http", "https"]), self.addresses[at as usize - 1])
        }
    }

    fn result(kind: &str) -> Json {
        let ok = ["done", "found", "msgs", "clients", "servers", "info", "tables"].contains(&kind);

        json!({ "ok": ok, "kind": kind, "v": 0, "at": 0, "k": 0, "recs": [], "msgs": [], "remaining": 0, "tables": [], "d": 0 })
    }

    async fn perform(self: &Arc<Self>, c: &Json, salt: u64) -> Json {
        let s = number(c, "s") as usize;

        if s == 0 {
            return self.server_op(c).await;
        }

        let mut rng = Rng::new(self.seed, salt);

        *self.sessions[s - 1].1.lock().unwrap() = Wire {
            lose: if c["lossy"] == true { Some((rng.range(1, 3), rng.chance(60))) } else { None },
            ..Wire::default()
        };

        let mut result = self.client_op(c, s, &mut rng).await;

        if let Some(date) = self.sessions[s - 1].1.lock().unwrap().date {
            result["d"] = json!(small(date.wrapping_sub(self.base)));
        }

        result
    }

    async fn server_op(self: &Arc<Self>, c: &Json) -> Json {
        let n = number(c, "n");
        let node = self.node(n);
        let driver = node.driver();
        let wrong = |what: String| Self::result(&format!("wrong: {what}"));

        match c["op"].as_str().unwrap() {
            "traverse" => driver.traversal().traverse(Self::net(Arc::downgrade(self), None), &*driver).await,
            "down" => self.up.lock().unwrap()[n as usize - 1] = false,
            "up" => self.up.lock().unwrap()[n as usize - 1] = true,

            "reboot" => {
                drop((node, driver));
                let old = self.running.lock().unwrap()[n as usize - 1].take();
                drop(old);
                let (node, running) = self.open(Arc::downgrade(self), n as usize).await;
                self.nodes.lock().unwrap()[n as usize - 1] = node;
                self.running.lock().unwrap()[n as usize - 1] = running;
            }

            "tables" => {
                let router = driver.router();

                return match (router.local_clients().await, router.remote_clients().await, router.servers().await) {
                    (Ok(locals), Ok(remotes), Ok(servers)) => {
                        let mut result = Self::result("tables");
                        let server = self.public(self.node_keys[n as usize - 1]);
                        result["tables"] = json!([self.locals(&locals, &server), self.remotes(&remotes), self.servers(&servers)]);
                        result
                    }

                    _ => wrong(String::from("tables"))
                };
            }

            "drain" => {
                let (k, channel) = (number(c, "k"), &self.channels[number(c, "ch") as usize - 1]);

                return match driver.messages_inbox().poll_messages(self.public(k), channel.clone(), None).await {
                    Ok((messages, 0)) => {
                        let mut result = Self::result("msgs");
                        result["msgs"] = self.messages(&messages, k, channel);
                        result
                    }

                    other => wrong(format!("{other:?}"))
                };
            }

            op => panic!("unknown operation {op}")
        }

        Self::result("done")
    }

    async fn client_op(&self, c: &Json, s: usize, rng: &mut Rng) -> Json {
        let op = c["op"].as_str().unwrap();
        let wrong = |what: String| Self::result(&format!("wrong: {what}"));
        let done = |ok: bool| Self::result(if ok { "done" } else { "error" });
        let me = self.who[s - 1];

        let (free, connected) = {
            let session = self.sessions[s - 1].0.lock().unwrap();
            (session.free.clone(), session.connected.clone())
        };

        let free = match &connected {
            Some(client) if rng.chance(50) => client.disconnected(),
            _ => free
        };

        let address = match number(c, "at") { 0 => String::new(), at => self.addresses[at as usize - 1].clone() };
        let channel = self.channels[number(c, "ch") as usize - 1].clone();

        match op {
            "connect" | "connectto" => {
                let client = match op {
                    "connect" => free.connect(&address).await,
                    _ => free.connect_to(&address, self.public(number(c, "key"))).await
                };

                return match client {
                    Ok(client) => {
                        let server = client.connected_server();
                        let host = self.hosts[number(c, "at") as usize - 1];

                        if host == 0 || server.address != address || self.key_of(&server.public_key) != self.node_keys[host as usize - 1] {
                            return wrong(format!("connected to {server:?}"));
                        }

                        self.sessions[s - 1].0.lock().unwrap().connected = Some(client);
                        Self::result("done")
                    }

                    Err(_) => done(false)
                };
            }

            "info" => return match free.get_info(&address).await {
                Ok(info) if self.key_of(&info.public_key) == self.node_keys[self.hosts[number(c, "at") as usize - 1] as usize - 1] => Self::result("info"),
                Ok(info) => wrong(format!("{info:?}")),
                Err(_) => done(false)
            },

            "clients" => return match free.get_clients(&address).await {
                Ok(clients) => {
                    let mut result = Self::result("clients");
                    let server = self.public(self.node_keys[self.hosts[number(c, "at") as usize - 1] as usize - 1]);
                    result["recs"] = json!(self.locals(&clients, &server));
                    result
                }

                Err(_) => done(false)
            },

            "servers" => return match free.get_servers(&address).await {
                Ok(servers) => {
                    let mut result = Self::result("servers");
                    result["recs"] = json!(self.servers(&servers));
                    result
                }

                Err(_) => done(false)
            },

            "tell" => {
                let server = Server::new(self.public(number(c, "key")), &self.addresses[number(c, "a") as usize - 1]);
                let request = AnnounceRequest::server(&self.secret(me), server);
                let answer = self.sessions[s - 1].2.post_request::<AnnounceRequest, AnnounceResponse>(format!("http://{address}/api/v1/announce"), request).await;
                return done(matches!(answer, Ok(AnnounceResponse(Response::Success { .. }))));
            }

            "steal" => {
                let request = PollRequest::new(&self.secret(me), &channel, None);
                let mut request = request.to_json().unwrap();
                request["public_key"] = json!(self.public(number(c, "k")).to_base64());

                let answer = self.sessions[s - 1].2.post(format!("http://{address}/api/v1/poll"), request).await;

                let Some(Ok(PollResponse(Response::Success { response, .. }))) = answer.ok().and_then(|answer| answer.body).map(|body| PollResponse::from_json(&body)) else {
                    return done(false);
                };

                let mut result = Self::result("msgs");
                result["msgs"] = self.messages(&response.messages, number(c, "k"), &channel);
                return result;
            }

            _ => ()
        }

        let Some(client) = connected else {
            return Self::result("free");
        };

        match op {
            "disconnect" => match client.disconnect().await {
                Ok(client) => {
                    let mut session = self.sessions[s - 1].0.lock().unwrap();
                    session.connected = None;
                    session.free = client;
                    Self::result("done")
                }

                Err(_) => done(false)
            },

            "announce" => {
                let target = self.target(c, rng);
                done(client.announce(target).await.is_ok())
            }

            "lookup" => match client.lookup(self.public(number(c, "k")), type_of(number(c, "ty"))).await {
                Ok(None) => Self::result("none"),
                Err(_) => done(false),

                Ok(Some((found, server, available))) => match self.record(&found, &server.public_key) {
                    Some((k, v, key)) if k == number(c, "k") && available => {
                        let mut result = Self::result("found");
                        result["v"] = json!(v);
                        result["at"] = json!(self.address_of(&server.address));
                        result["k"] = json!(key);
                        result
                    }

                    _ => wrong(format!("found {found:?} {server:?} {available}"))
                }
            },

            "send" => {
                let (m, r) = (number(c, "m"), number(c, "r"));
                let level = *rng.pick(&[CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality]);
                let size = *rng.pick(&[0, 1, 30, 1000]);
                let content = [format!("{m} ").into_bytes(), rng.bytes(size)].concat();
                let message = Message::create(&self.secret(me), &self.public(r), &content, any_encoding(rng), level).unwrap();

                let record = Client::new(self.public(me), client.connection_certificate().clone(), ClientInfo::thin());
                let sender = Sender::new(record, client.connected_server().clone());
                self.sent.lock().unwrap().insert(m, Sent { sender, message: message.clone(), content, by: me, to: r });

                let target = self.target(c, rng);
                done(client.send(target, self.public(r), channel, message).await.is_ok())
            }

            "poll" => {
                let limit = limit_of(c["limit"].as_i64().unwrap());

                match client.poll(&channel, limit).await {
                    Ok((messages, remaining)) => {
                        let mut result = Self::result("msgs");
                        result["msgs"] = self.messages(&messages, me, &channel);
                        result["remaining"] = json!(small(remaining));
                        result
                    }

                    Err(_) => done(false)
                }
            }

            op => panic!("unknown operation {op}")
        }
    }
}

// ---------------------------------------------------------- generation

struct Generator {
    rng: Rng,
    net: Json,
    sessions: usize,
    nodes: usize,
    addresses: usize,
    clients: u64,
    keys: u64,
    channels: usize,
    lossy: u64,
    m: u64,

    /// Where clients are likely to be connected.
    home: Vec<u64>,

    /// Receivers of messages that are likely to be waiting, with the address and channel.
    mail: Vec<(u64, u64, u64)>
}

impl Generator {
    fn new(mut rng: Rng, largest: usize, simple: bool) -> Self {
        let nodes = rng.range(if simple { 2 } else { 1 }, largest);
        let sessions = rng.range(2, if simple { 3 } else { 4 });
        let clients = sessions as u64;
        let mut host: Vec<u64> = (1..=nodes as u64).collect();

        // second addresses of servers, and those that lead nowhere
        if !simple {
            for _ in 0..rng.below(3) {
                host.push(rng.below(nodes + 1) as u64);
            }
        }

        let key: Vec<u64> = (1..=nodes as u64).map(|n| clients + n).collect();

        let who: Vec<u64> = (1..=clients).map(|s| match rng.below(10) {
            0 | 1 if s > 1 => rng.range(1, s as usize - 1) as u64,
            2 if !simple => *rng.pick(&key),
            _ => s
        }).collect();

        let ty: Vec<u64> = who.iter().map(|k| if *k > clients { 3 } else { rng.range(1, 4) as u64 }).collect();

        Self {
            net: json!({ "host": host, "key": key, "who": who, "ty": ty }),
            sessions,
            nodes,
            addresses: host.len(),
            clients,
            // one more for a server that isn't there
            keys: clients + nodes as u64 + 1,
            channels: rng.range(1, 2),
            lossy: *rng.pick(&[0, 0, 10]),
            m: 0,
            home: vec![0; sessions],
            mail: Vec::new(),
            rng
        }
    }

    /// An operation that is likely to get somewhere.
    fn promising(&mut self, ops: &[&str]) -> Json {
        if self.rng.chance(25) && !self.mail.is_empty() {
            let place = self.rng.below(self.mail.len());
            let (key, at, ch) = self.mail[place];
            let sessions: Vec<usize> = (1..=self.sessions).filter(|s| self.net["who"][s - 1] == key).collect();

            if !sessions.is_empty() {
                let s = *self.rng.pick(&sessions);
                let there = self.home[s - 1] == at;
                let mut c = self.op(if there { &["poll"] } else { &["connect"] }, s);
                c["lossy"] = json!(false);

                if there {
                    c["ch"] = json!(ch);

                    if self.rng.chance(50) {
                        self.mail.remove(place);
                    }
                } else {
                    c["at"] = json!(at);
                    self.home[s - 1] = at;
                }

                return c;
            }
        }

        let s = self.session();
        let connects = self.home[s - 1] == 0 && self.rng.chance(70);
        self.op(if connects { &["connect"] } else { ops }, s)
    }

    fn op(&mut self, ops: &[&str], s: usize) -> Json {
        let op = *self.rng.pick(ops);
        let c = self.op_of(op, s);

        match op {
            "connect" | "connectto" => self.home[s - 1] = number(&c, "at"),
            "disconnect" => self.home[s - 1] = 0,

            "send" => {
                let r = number(&c, "r");
                let at = number(&c, "at");
                let at = if at > 0 { at } else { (0..self.sessions).find(|s| self.net["who"][*s] == r).map_or(0, |s| self.home[s]) };

                if at > 0 {
                    self.mail.push((r, at, number(&c, "ch")));
                }
            }

            _ => ()
        }

        c
    }

    fn op_of(&mut self, op: &str, s: usize) -> Json {
        let mut c = blank(op);

        if ["traverse", "reboot", "down", "up", "tables"].contains(&op) {
            c["n"] = json!(self.rng.range(1, self.nodes));
            return c;
        }

        let someone = self.rng.pick(&numbers(&self.net["who"])).to_owned();
        let someone = if self.rng.chance(90) { someone } else { self.rng.range(1, self.keys as usize) as u64 };
        c["s"] = json!(s);
        c["lossy"] = json!(self.rng.chance(self.lossy));
        c["at"] = json!(self.rng.range(1, self.addresses));
        c["ch"] = json!(self.rng.range(1, self.channels));
        let ty = if self.rng.chance(60) { 0 } else { self.rng.range(1, 4) };

        match op {
            "connectto" => {
                let host = self.net["host"][number(&c, "at") as usize - 1].as_u64().unwrap();
                let right = if host == 0 { self.keys } else { self.clients + host };
                c["key"] = json!(if self.rng.chance(70) { right } else { self.rng.range(1, self.keys as usize) as u64 });
            }

            "announce" if self.rng.chance(30) => {
                c["at"] = json!(0);
                c["k"] = json!(someone);
                c["ty"] = json!(ty);
            }

            "lookup" => {
                c["at"] = json!(0);
                c["k"] = json!(someone);
                c["ty"] = json!(ty);
            }

            "send" => {
                self.m += 1;
                c["m"] = json!(self.m);
                c["r"] = json!(someone);

                // to where the receiver is, mostly
                let home = (0..self.sessions).find(|s| self.net["who"][*s] == someone).map_or(0, |s| self.home[s]);

                if home > 0 && self.rng.chance(60) {
                    c["at"] = json!(home);
                }

                if self.rng.chance(60) {
                    c["at"] = json!(0);
                    c["ty"] = json!(ty);
                    let other = self.rng.pick(&numbers(&self.net["who"])).to_owned();
                    c["k"] = json!(if self.rng.chance(90) { someone } else { other });
                }
            }

            "poll" => {
                c["at"] = json!(0);

                // where something is waiting, mostly
                let me = self.net["who"][s - 1].as_u64().unwrap();
                let home = self.home[s - 1];
                let waiting = self.mail.iter().find(|(r, at, _)| *r == me && *at == home).map(|(_, _, ch)| *ch);

                if let Some(ch) = waiting.filter(|_| self.rng.chance(70)) {
                    c["ch"] = json!(ch);
                }

                c["limit"] = json!(if self.rng.chance(50) { -1 } else { any_limit(&mut self.rng) });
            }

            "disconnect" => c["at"] = json!(0),

            "tell" => {
                c["key"] = json!(self.rng.range(self.clients as usize + 1, self.keys as usize));
                let right = number(&c, "key") - self.clients;
                c["a"] = json!(if self.rng.chance(80) && right <= self.nodes as u64 { right } else { self.rng.range(1, self.addresses) as u64 });
            }

            "steal" => {
                let me = self.net["who"][s - 1].as_u64().unwrap();
                let mut victim = someone;

                while victim == me {
                    victim = self.rng.range(1, self.keys as usize) as u64;
                }

                c["k"] = json!(victim);
            }

            _ => ()
        }

        c
    }

    fn session(&mut self) -> usize {
        self.rng.range(1, self.sessions)
    }

    /// An operation of the server.
    fn of(op: &str, n: usize) -> Json {
        let mut c = blank(op);
        c["n"] = json!(n);
        c
    }

    /// Everything that there is in the end.
    fn all(&self) -> Vec<Json> {
        let mut ops = Vec::new();

        for n in 1..=self.nodes {
            ops.push(Self::of("tables", n));

            for k in 1..=self.keys {
                for ch in 1..=self.channels {
                    let mut c = Self::of("drain", n);
                    c["k"] = json!(k);
                    c["ch"] = json!(ch);
                    ops.push(c);
                }
            }
        }

        ops
    }
}

const OPS: &[&str] = &[
    "connect", "connect", "connect", "connectto", "disconnect", "announce", "announce", "announce", "lookup", "lookup", "lookup", "send", "send", "send", "send", "send",
    "poll", "poll", "poll", "poll", "info", "clients", "servers", "tell", "tell", "steal", "traverse", "traverse", "reboot", "tables"
];

/// Operations that are made at once.
const OVERLAPPING: &[&str] = &["connect", "disconnect", "announce", "lookup", "lookup", "send", "send", "send", "poll", "poll", "poll", "tell", "traverse"];

// ----------------------------------------------------------- recording

fn record(world: &Arc<World>, runtime: &tokio::runtime::Runtime, log: &Log, c: &Json, salt: u64) {
    watch(|| c.to_string());
    let call = log.call(json!({ "c": c }));
    let result = run_as(1, runtime, world.perform(c, salt));
    finish_call(log, call, result);
    unwatch();
}

fn finish_call(log: &Log, call: usize, result: Result<Json, String>) {
    match result {
        Ok(mut event) => {
            event["e"] = json!("ret");
            log.ret(call, event);
        }

        Err(panic) => log.ret(call, json!({ "e": "panic", "what": panic, "d": 0 }))
    }
}

fn close(world: Arc<World>, log: &Log, histories: &mut Histories, net: &Json, about: Json) {
    let mut events = log.take();
    let strange = std::mem::take(&mut *world.strange.lock().unwrap());

    if !strange.is_empty() {
        events.push(json!({ "e": "stranger", "urls": strange }));
    }

    histories.header = json!({ "net": net });
    histories.add(events, about);
}

fn channel_names(rng: &mut Rng, count: usize) -> Vec<String> {
    let same = rng.text(6);
    (0..count).map(|n| if rng.chance(50) { format!("{same}{}", "/".repeat(n)) } else { format!("{}{n}", rng.text(30)) }).collect()
}

/// Records histories of networks: those of the plan, random ones, or overlapping ones.
pub fn campaign(plan: &Json, seed: u64) -> Json {
    let what = plan["what"].as_str().unwrap();
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{what}-{shard}"));
    let mut rng = Rng::new(seed, 15_000 + shard * 7919);
    let runtime = if ["schedule", "stress"].contains(&plan["way"].as_str().unwrap()) { runtime(1) } else { unhurried(1, seed) };
    let start = elapsed();
    let budget = plan["seconds"].as_f64().unwrap_or(1e9);
    let length = plan["length"].as_u64().unwrap_or(60) as usize;
    let empty = Vec::new();
    let cases = plan["cases"].as_array().unwrap_or(&empty);
    let count = plan["count"].as_u64().unwrap_or(cases.len() as u64);
    let mut schedules = 0;

    for round in 0..count {
        if (elapsed() - start).as_secs_f64() > budget {
            break;
        }

        let mut rng = Rng::new(rng.next(), round);
        let dir = scratch();
        fsgate::guard(&dir);

        match plan["way"].as_str().unwrap() {
            "walks" => {
                let net = &plan["net"];
                let script = json!({ "seed": world(seed, round), "net": net, "keys": plan["keys"], "channels": channel_names(&mut rng, 1), "http": plan["http"] });
                let world = World::new(&script, &dir.join("storage"), &runtime);
                let log = Log::default();

                for (number, c) in cases[round as usize].as_array().unwrap().iter().enumerate() {
                    let mut c = c.clone();
                    c["m"] = json!(number + 1);
                    c.as_object_mut().unwrap().remove("d");

                    // every certificate is newer
                    if c["op"] == "connect" {
                        advance_clock(rng.range(1, 20) as i64);
                    }

                    record(&world, &runtime, &log, &c, rng.next());
                }

                for n in 1..=world.node_keys.len() {
                    record(&world, &runtime, &log, &Generator::of("tables", n), 0);
                }

                close(world, &log, &mut histories, net, json!("walk"));
            }

            "random" => {
                let mut gen = Generator::new(Rng::new(rng.next(), 1), 3, false);
                let script = json!({ "seed": world(seed, round), "net": gen.net, "keys": gen.keys, "channels": channel_names(&mut rng, gen.channels), "http": plan["http"] });
                let world = World::new(&script, &dir.join("storage"), &runtime);
                let log = Log::default();
                let mut down = None;

                for _ in 0..rng.range(1, length) {
                    let c = gen.promising(OPS);

                    // servers are down for a while
                    if let Some(n) = down.filter(|_| rng.chance(20)) {
                        record(&world, &runtime, &log, &Generator::of("up", n), 0);
                        down = None;
                    } else if down.is_none() && rng.chance(3) {
                        let n = rng.range(1, gen.nodes);
                        record(&world, &runtime, &log, &Generator::of("down", n), 0);
                        down = Some(n);
                    }

                    if rng.chance(30) {
                        advance_clock(if rng.chance(10) { -(rng.below(5) as i64) } else { rng.below(100) as i64 });
                    }

                    record(&world, &runtime, &log, &c, rng.next());
                }

                for c in gen.all() {
                    record(&world, &runtime, &log, &c, 0);
                }

                let net = gen.net.clone();
                close(world, &log, &mut histories, &net, json!("random"));
            }

            "stress" | "schedule" => {
                let mut gen = Generator::new(Rng::new(rng.next(), 1), 2, true);
                gen.lossy = 0;
                let script = json!({ "seed": world(seed, round), "net": gen.net, "keys": gen.keys, "channels": channel_names(&mut rng, gen.channels), "http": plan["http"] });

                // most are connected before
                let mut prefix = Vec::new();

                for s in 1..=gen.sessions {
                    if rng.chance(80) {
                        prefix.push(gen.op(&["connect"], s));
                    }
                }

                for _ in 0..rng.range(2, 8) {
                    let s = gen.session();
                    prefix.push(gen.op(&["announce", "tell", "tell", "send", "send", "send"], s));
                }

                let prefix: Vec<(Json, u64)> = prefix.into_iter().map(|c| (c, rng.next())).collect();
                let free = plan["way"] == "stress";

                let threads: Vec<Vec<(Json, u64)>> = (1..=gen.sessions).map(|s| {
                    (0..if free { rng.range(1, 3) } else { rng.range(1, 2) }).map(|_| (gen.op(OVERLAPPING, s), rng.next())).collect()
                }).collect();

                let suffix = gen.all();

                if free {
                    let world = World::new(&script, &dir.join("storage"), &runtime);
                    let log = Log::default();

                    for (c, salt) in &prefix {
                        record(&world, &runtime, &log, c, *salt);
                    }

                    watch(|| format!("{threads:?}"));

                    let pool = tokio::runtime::Builder::new_multi_thread()
                        .worker_threads(4)
                        .enable_all()
                        .on_thread_start(|| fsgate::OP.with(|current| current.set(1)))
                        .build().unwrap();

                    std::thread::scope(|scope| {
                        for thread in &threads {
                            let (world, log, pool) = (&world, &log, pool.handle().clone());

                            scope.spawn(move || {
                                fsgate::OP.with(|current| current.set(1));

                                for (c, salt) in thread {
                                    let call = log.call(json!({ "c": c }));
                                    let (world, op, salt) = (world.clone(), c.clone(), *salt);
                                    let result = guarded(|| pool.block_on(pool.spawn(async move { world.perform(&op, salt).await })));
                                    let result = result.and_then(|result| result.map_err(|err| format!("panic: {err}")));
                                    finish_call(log, call, result);
                                }
                            });
                        }
                    });

                    unwatch();
                    pool.shutdown_timeout(std::time::Duration::from_secs(1));

                    for c in &suffix {
                        record(&world, &runtime, &log, c, 0);
                    }

                    close(world, &log, &mut histories, &gen.net, json!("stress"));
                } else {
                    let mut explorer = Explorer::new(2);
                    let mut runs = 0;

                    while let Some(choices) = explorer.next() {
                        runs += 1;

                        if runs > plan["max"].as_u64().unwrap_or(30) {
                            break;
                        }

                        schedules += 1;
                        let guard = dir.join(format!("run{runs}"));
                        std::fs::create_dir_all(&guard).unwrap();
                        fsgate::guard(&guard);
                        let world = World::new(&script, &guard.join("storage"), &runtime);
                        let log = Log::default();

                        for (c, salt) in &prefix {
                            record(&world, &runtime, &log, c, *salt);
                        }

                        watch(|| format!("{threads:?} {choices:?}"));

                        let work = threads.iter().map(|ops| {
                            let (ops, log, world) = (ops.clone(), log.clone(), world.clone());

                            let work: sched::Work = Box::new(move |runtime| {
                                for (number, (c, salt)) in ops.iter().enumerate() {
                                    if number > 0 {
                                        sched::pause();
                                    }

                                    let call = log.call(json!({ "c": c }));
                                    finish_call(&log, call, guarded(|| runtime.block_on(world.perform(c, *salt))));
                                }
                            });

                            work
                        }).collect();

                        let outcome = sched::run(work, &choices, |_, _| ());
                        explorer.learn(&choices, &outcome);
                        explorer.thin(&mut rng, 20_000);
                        unwatch();

                        let schedule: Vec<usize> = outcome.decisions.iter().map(|(_, choice)| *choice).collect();

                        if outcome.hang {
                            log.push(json!({ "e": "hang" }));
                        } else {
                            for c in &suffix {
                                record(&world, &runtime, &log, c, 0);
                            }
                        }

                        close(world, &log, &mut histories, &gen.net, json!({ "schedule": schedule }));

                        if outcome.hang {
                            break;
                        }

                        let _ = std::fs::remove_dir_all(&guard);
                    }
                }
            }

            way => panic!("unknown way {way}")
        }

        let _ = std::fs::remove_dir_all(&dir);
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events, "schedules": schedules })
}
