//! Traversals of networks made up by the harness.

use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use hyperborealib::drivers::server::messages_inbox::MessagesInbox;
use hyperborealib::drivers::server::router::Router;
use hyperborealib::drivers::server::traversal::Traversal;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::client::{broken, some_addresses, public_of, secret, Stage};
use crate::fsgate;
use crate::net::{new_node, Net, EMPTY};
use crate::script::Histories;
use crate::util::*;

fn random_case(rng: &mut Rng) -> Json {
    let count = match rng.below(100) {
        0..=2 => if rng.chance(10) { rng.range(1000, 1400) } else { rng.range(100, 300) },
        3..=9 => rng.range(15, 40),
        _ => rng.range(2, 10)
    };

    let keys = if rng.chance(70) { count } else { rng.range(1, count) };
    let addresses = if rng.chance(70) { count } else { rng.range(1, count) };
    let shape = if count < 100 { rng.below(5) } else { *rng.pick(&[0, 2, 5]) };

    let key: Vec<usize> = (0..count).map(|r| r % keys + 1).collect();
    let at: Vec<usize> = (0..count).map(|r| (r / 2 + r * (count % 2)) % addresses + 1).map(|a| if addresses == count { 0 } else { a }).collect();
    let at: Vec<usize> = at.into_iter().enumerate().map(|(r, a)| if a == 0 { r + 1 } else { a }).collect();

    // records are different
    let at: Vec<usize> = at.iter().enumerate().map(|(r, a)| if (0..r).any(|other| key[other] == key[r] && at[other] == *a) { 0 } else { *a }).collect();

    if at.contains(&0) {
        return random_case(rng);
    }

    // large ones are mostly reachable to their ends
    let reachable = if count < 100 { 80 } else if shape == 0 || rng.chance(50) { 100 } else { 95 };
    let up: Vec<bool> = (0..addresses).map(|_| rng.chance(reachable)).collect();

    let lists: Vec<Vec<usize>> = (1..=addresses).map(|a| if !up[a - 1] { Vec::new() } else {
        match shape {
            0 => vec![a % count + 1],
            1 => vec![a % count + 1, a, a.saturating_sub(1).max(1)],
            2 => vec![(2 * a).min(count), (2 * a + 1).min(count)],
            3 => (1..=count).collect(),
            5 if a == 1 || a % 100 == 1 && rng.chance(50) => (1..=count).collect(),
            _ => (0..rng.below(4)).map(|_| rng.range(1, count)).collect()
        }
    }).collect();

    let before: Vec<usize> = (1..=count).filter(|_| rng.chance(20)).collect();

    // two records of a key can't both be in the table
    let before: Vec<usize> = before.iter().copied().filter(|r| !before.iter().any(|other| other > r && key[other - 1] == key[r - 1])).collect();
    json!({ "net": { "key": key, "at": at, "up": up, "lists": lists }, "before": before })
}

/// Records traversals of the networks of the plan, or of random ones.
pub fn campaign(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut rng = Rng::new(seed, 5300 + shard);
    let runtime = unhurried(1, seed);
    let empty = Vec::new();
    let cases = plan["cases"].as_array().unwrap_or(&empty);
    let count = plan["count"].as_u64().unwrap_or(cases.len() as u64);

    for number in 0..count {
        let case = if cases.is_empty() { random_case(&mut rng) } else { cases[number as usize % cases.len()].clone() };
        watch(|| format!("traversal {number}: {case}"));
        let root = scratch();
        fsgate::guard(&root);
        let events = guarded(|| runtime.block_on(traverse(world(seed, number), &root, &case, &mut rng)));
        histories.header = case;
        histories.add(events.unwrap_or_else(|panic| vec![json!({ "e": "panic", "what": panic })]), json!({ "number": number }));
        let _ = std::fs::remove_dir_all(&root);
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}

fn numbers(of: &Json) -> Vec<usize> {
    of.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect()
}

async fn traverse(seed: u64, root: &std::path::Path, case: &Json, rng: &mut Rng) -> Vec<Json> {
    let net = &case["net"];
    let (keys, at) = (numbers(&net["key"]), numbers(&net["at"]));
    let most = *keys.iter().max().unwrap();

    // one of the keys may be the server's own
    let me = if rng.chance(30) { rng.range(1, most) as u64 } else { 99 };

    let addresses = some_addresses(net["up"].as_array().unwrap().len(), rng);

    let servers: Vec<Server> = keys.iter().zip(&at).map(|(key, at)| Server::new(public_of(seed, *key as u64), &addresses[at - 1])).collect();
    let node = new_node(Net::none(), secret(seed, me), addresses[0].clone(), root).await.unwrap();
    let driver = node.driver();
    let router = driver.router();

    for r in numbers(&case["before"]) {
        router.index_server(servers[r - 1].clone()).await.unwrap();
    }

    let mut locals: Vec<Client> = Vec::new();
    let mut remotes: Vec<(Client, Server)> = Vec::new();

    for n in 0..rng.below(3) as u64 {
        let mut client = any_client(seed, rng);
        client.public_key = public_of(seed, n + 1);
        router.index_local_client(client.clone()).await.unwrap();
        locals.push(client);
    }

    for n in 0..rng.below(3) as u64 {
        let mut client = any_client(seed, rng);
        client.public_key = public_of(seed, n + 1);
        let server = any_server(seed, rng);
        router.index_remote_client(client.clone(), server.clone()).await.unwrap();
        remotes.push((client, server));
    }

    let message = Message::new("content", "sign", any_encoding(rng));
    driver.messages_inbox().add_message(Sender::new(any_client(seed, rng), any_server(seed, rng)), public_of(seed, 1), String::from("c"), message.clone()).await.unwrap();

    let stage = Stage::new();
    let events: Arc<Mutex<Vec<Json>>> = Arc::default();

    stage.play({
        let events = events.clone();
        let here: HashMap<String, usize> = addresses.iter().enumerate().map(|(at, address)| (format!("http://{address}/api/v1/servers"), at)).collect();
        let (net, servers, mut rng) = (net.clone(), servers.clone(), Rng::new(rng.next(), 3));

        move |url, body| {
            let mut events = events.lock().unwrap();

            let at = match here.get(url) {
                Some(at) if body.is_none() => *at,

                _ => {
                    events.push(json!({ "e": "stranger", "url": url }));
                    return Err(String::from("unreachable"));
                }
            };

            events.push(json!({ "e": "ask", "at": at + 1 }));

            let mut list: Vec<Json> = numbers(&net["lists"][at]).into_iter().map(|r| servers[r - 1].to_json().unwrap()).collect();

            if !list.is_empty() && rng.chance(30) {
                let again = rng.pick(&list).clone();
                list.push(again);
            }

            rng.shuffle(&mut list);

            if net["up"][at] == true {
                return Ok(json!({ "standard": 1, "servers": list }));
            }

            // what it would list is no one's business
            let tempting = json!({ "standard": 1, "servers": [Server::new(public_of(0, 1), "stranger.example").to_json().unwrap()] });

            match rng.below(4) {
                0 => Err(String::from("refused")),
                1 => Err(EMPTY.to_string()),
                2 => Ok(json!({ "standard": 1, "status": 200, "reason": "no" })),
                _ => Ok(broken(&mut rng, &tempting))
            }
        }
    });

    driver.traversal().traverse(stage.net(), &*driver).await;

    let mut events = std::mem::take(&mut *events.lock().unwrap());
    let mut table = vec![0; most];

    match router.servers().await {
        Ok(known) => for server in known {
            let record = servers.iter().position(|other| *other == server);

            match record.map(|record| (record as i64 + 1, keys[record] - 1)) {
                Some((record, key)) if table[key] == 0 => table[key] = record,
                _ => table = vec![-1; most]
            }
        },

        Err(_) => table = vec![-2; most]
    }

    events.push(json!({ "e": "ret", "table": table }));

    let same = |a: &[(Client, Option<Server>)], b: &[(Client, Option<Server>)]| a.len() == b.len() && a.iter().all(|item| b.contains(item));
    let of_locals = |clients: Vec<Client>| clients.into_iter().map(|client| (client, None)).collect::<Vec<_>>();
    let of_remotes = |clients: Vec<(Client, Server)>| clients.into_iter().map(|(client, server)| (client, Some(server))).collect::<Vec<_>>();
    let inbox = driver.messages_inbox().poll_messages(public_of(seed, 1), String::from("c"), None).await;

    if !same(&of_locals(router.local_clients().await.unwrap_or_default()), &of_locals(locals)) ||
        !same(&of_remotes(router.remote_clients().await.unwrap_or_default()), &of_remotes(remotes)) ||
        !inbox.is_ok_and(|(messages, remaining)| messages.len() == 1 && remaining == 0 && messages[0].message == message)
    {
        events.push(json!({ "e": "clients or messages changed" }));
    }

    events
}
