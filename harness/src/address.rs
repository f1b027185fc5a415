//! Addresses: parsed, and resolved through a network made up by the harness.

use std::sync::{Arc, Mutex};

use hyperborealib::address::{parse, resolve, Address};
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::Server;
use serde_json::{json, Value as Json};

use crate::client::{client_record, connected, header, public_of, secret, success, Connected, Stage, ME};
use crate::router::type_of;
use crate::script::Histories;
use crate::util::*;

/// Random tokens: pieces that matter, letters, and whole or damaged keys.
fn random_text(rng: &mut Rng) -> Vec<String> {
    const PIECES: &[&str] = &[
        "hyperborea", "hyp", "http", "https", "-", "client", "server", "file", "thin", "thick", ":", "://", "//", "/", "thin:", "thick:", "server:", "file:", "K", "K", "K", "?", "x"
    ];

    let mut tokens = Vec::new();

    let mut push = |piece: &str, rng: &mut Rng| match piece {
        "K" => tokens.push(format!("K{}", 1 + rng.below(3))),
        piece => tokens.extend(piece.chars().map(String::from))
    };

    // mostly nearly right
    if rng.chance(70) {
        push(rng.pick(&["hyperborea", "hyp", "http", "https", "hyperborea", "hyp"]).to_owned(), rng);

        if rng.chance(40) {
            push("-", rng);
            push(rng.pick(&["client", "server", "file"]).to_owned(), rng);
        }

        push("://", rng);
    }

    for _ in 0..rng.below(4) {
        let piece = *rng.pick(PIECES);
        push(piece, rng);
    }

    if rng.chance(50) {
        push("K", rng);
    }

    // a part of it again
    if rng.chance(20) && !tokens.is_empty() {
        let from = rng.below(tokens.len());
        let to = rng.range(from, (from + 8).min(tokens.len()));
        let part = tokens[from..to].to_vec();
        let at = if rng.chance(50) { to } else { rng.below(tokens.len() + 1) };
        tokens.splice(at..at, part);
    }

    if tokens.len() > 1 && rng.chance(20) {
        tokens.remove(rng.below(tokens.len()));
    }

    if rng.chance(20) {
        let piece = rng.pick(&[":", "/", "?", "a", "K1", "-"]).to_string();
        tokens.insert(rng.below(tokens.len() + 1), piece);
    }

    tokens
}

/// The text of the tokens. Some of its keys are damaged, which changes the tokens.
fn write(seed: u64, tokens: &mut Vec<String>, rng: &mut Rng) -> String {
    let mut text = String::new();
    let mut changed = Vec::new();

    for (at, token) in tokens.iter().enumerate() {
        // what is next to a shortened key can make it another one
        let alone = at + 1 == tokens.len() && (at == 0 || tokens[at - 1] == "/" || tokens[at - 1] == ":");

        if token == "?" {
            let odd = rng.pick(&["0", "1", "9", ".", "A", "H", "%", "+", "=", "_", "@", "é", "漢", "\0", "\n", " ", "\u{130}", "?", "#", "\u{2215}", "\\"]).to_string();
            text.push_str(&odd);
            changed.push(token.clone());
        } else if let Some(number) = token.strip_prefix('K') {
            let mut key = public_of(seed, 10 + number.parse::<u64>().unwrap()).to_base64();

            if !rng.chance(15) {
                text.push_str(&key);
                changed.push(token.clone());
                continue;
            }

            match if alone { rng.below(6) } else { rng.range(2, 5) } {
                0 => { key.pop(); }
                1 => { key.remove(0); }
                2 => key.push('='),
                3 => key.insert(rng.below(key.len()), ' '),

                // no such kind of points
                4 => key.replace_range(0..1, "B"),
                _ => key = format!("{key}\n")
            }

            text.push_str(&key);
            changed.extend(key.chars().map(|c| if c.is_ascii_lowercase() || c == '-' { c.to_string() } else { String::from("?") }));
        } else {
            text.push_str(token);
            changed.push(token.clone());
        }
    }

    *tokens = changed;
    text
}

fn key_name(seed: u64, key: &Json) -> String {
    (1..=3).find(|k| *key == json!(public_of(seed, 10 + k).to_base64())).map_or(String::from("another"), |k| format!("K{k}"))
}

/// Token at which the part of the text begins.
fn place(text: &str, tokens: &[String], seed: u64, part: &str) -> i64 {
    if !text.ends_with(part) {
        return -1;
    }

    let mut left = text.len() - part.len();

    for (at, token) in tokens.iter().enumerate() {
        if left == 0 {
            return at as i64 + 1;
        }

        let len = match token.as_str() {
            "?" => text[text.len() - part.len() - left..].chars().next().unwrap().len_utf8(),
            token if token.starts_with('K') => public_of(seed, 11).to_base64().len(),
            token => token.len()
        };

        if len > left {
            return -1;
        }

        left -= len;
    }

    if left == 0 { tokens.len() as i64 + 1 } else { -1 }
}

fn parsed(seed: u64, text: &str, tokens: &[String]) -> Json {
    match guarded(|| parse(text)) {
        Err(panic) => json!({ "kind": panic, "type": "", "key": "", "from": 0 }),
        Ok(Err(_)) => json!({ "kind": "error", "type": "", "key": "", "from": 0 }),

        Ok(Ok(Address::Hyperborea { public_key, client_type })) => json!({
            "kind": "hyperborea",
            "type": client_type.map(|ty| ty.to_string()).unwrap_or_default(),
            "key": key_name(seed, &json!(public_key.to_base64())),
            "from": 0
        }),

        Ok(Ok(Address::Http { address })) => json!({ "kind": "http", "type": "", "key": "", "from": place(text, tokens, seed, &address) }),
        Ok(Ok(Address::Https { address })) => json!({ "kind": "https", "type": "", "key": "", "from": place(text, tokens, seed, &address) }),
        Ok(Ok(Address::Raw(address))) => json!({ "kind": "raw", "type": "", "key": "", "from": place(text, tokens, seed, &address) })
    }
}

async fn resolved(seed: u64, client: &Connected, stage: &Stage, start: u64, text: &str, network: &str, rng: &mut Rng) -> (Json, Json) {
    let searches: Arc<Mutex<Vec<Json>>> = Arc::default();
    let home = client.connected_server().address.clone();
    let there = match rng.below(10) {
        0 | 1 => home.clone(),
        2..=5 => { let v = rng.next(); rng.named(20, v) }
        _ => format!("there{}.example:{}", rng.next(), rng.below(65536))
    };
    let hinted = rng.chance(50);

    stage.play({
        let (searches, home, there, network) = (searches.clone(), home.clone(), there.clone(), network.to_string());
        let mut rng = Rng::new(rng.next(), 5);

        move |url, body| {
            let key = if url == format!("http://{home}/api/v1/lookup") { start } else { 40 };
            let Some(body) = body.filter(|_| key == start || url == format!("http://hinted.{home}/api/v1/lookup")) else {
                searches.lock().unwrap().push(json!(["wrong request", url]));
                return Err(String::from("unreachable"));
            };

            let proof_seed = header(seed, ME, body)?;

            // asking the next one belongs to the same search
            if key == start {
                searches.lock().unwrap().push(json!([key_name(seed, &body["request"]["public_key"]), body["request"]["type"].as_str().unwrap_or_default()]));
            }

            let who = (1..=3).find(|k| body["request"]["public_key"] == json!(public_of(seed, 10 + k).to_base64())).ok_or("no one")?;
            let ty = (1..=4).filter_map(type_of).find(|ty| body["request"]["type"] == json!(ty.to_string()));
            let hint = json!({ "disposition": "hint", "servers": [Server::new(public_of(seed, 40), format!("hinted.{home}")).to_json().unwrap()] });

            let response = match network.as_str() {
                "down" => return Err(String::from("unreachable")),
                "nowhere" if !hinted || key != start => json!({ "disposition": "hint", "servers": [] }),
                "nowhere" => hint,

                "here" => {
                    let record = client_record(seed, 10 + who, ty, &public_of(seed, start), "right", &mut rng);
                    json!({ "disposition": "local", "client": record.to_json().unwrap(), "available": rng.chance(50) })
                }

                _ if hinted && key == start => hint,

                _ => {
                    let record = client_record(seed, 10 + who, ty, &public_of(seed, 41), "right", &mut rng);
                    json!({ "disposition": "remote", "client": record.to_json().unwrap(), "server": Server::new(public_of(seed, 41), &there).to_json().unwrap(), "available": rng.chance(50) })
                }
            };

            Ok(success(&public_of(seed, key), &secret(seed, key).create_signature(proof_seed.to_be_bytes()), response))
        }
    });

    let result = match resolve(text, client).await {
        Ok(address) if address == text => json!("verbatim"),
        Ok(address) if network == "here" && address == format!("http://{home}") => json!("here"),
        Ok(address) if network == "there" && address == format!("http://{there}") => json!("there"),
        Ok(address) => json!(format!("resolved to {address}")),
        Err(MiddlewareError::RequestFailed { status: ResponseStatus::ClientNotFound, .. }) => json!("not found"),
        Err(_) => json!("error")
    };

    let searches = std::mem::take(&mut *searches.lock().unwrap());
    (json!(searches), result)
}

pub fn campaign(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut rng = Rng::new(seed, 8300 + shard);
    let runtime = unhurried(1, seed);
    let stage = Stage::new();
    let empty = Vec::new();
    let cases = plan["cases"].as_array().unwrap_or(&empty);
    let count = plan["count"].as_u64().unwrap_or(cases.len() as u64);
    let start = 1 + rng.next() % 3;
    let client = connected(seed, &stage, &runtime, "home.example:80", start);
    let mut events = Vec::new();

    for number in 0..count {
        let mut tokens: Vec<String> = if cases.is_empty() {
            random_text(&mut rng)
        } else {
            cases[number as usize % cases.len()].as_array().unwrap().iter().map(|token| token.as_str().unwrap().to_string()).collect()
        };

        let text = write(seed, &mut tokens, &mut rng);
        watch(|| format!("address {text:?}"));

        let network = *rng.pick(&["here", "there", "nowhere", "down"]);
        let mut event = parsed(seed, &text, &tokens);

        let (searches, resolved) = guarded(|| runtime.block_on(resolved(seed, &client, &stage, start, &text, network, &mut rng)))
            .unwrap_or_else(|panic| (json!([]), json!(panic)));

        for (name, value) in [("e", json!("address")), ("text", json!(tokens)), ("written", json!(text)), ("searches", searches), ("network", json!(network)), ("resolved", resolved)] {
            event[name] = value;
        }

        events.push(event);

        if events.len() == 100 || number + 1 == count {
            histories.add(std::mem::take(&mut events), json!({ "until": number }));
        }
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}
