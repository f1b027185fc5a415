//! Keys, signatures, capsules, secrets and serialisations, and what becomes of damaged ones.

use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};

use hyperborealib::crypto::encoding::base64::{decode as base64_decode, encode as base64_encode};
use hyperborealib::exports::k256;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use crate::script::Histories;
use crate::util::*;

/// Keys, all different: some at the edges of what keys can be.
fn some_keys(rng: &mut Rng, count: usize) -> Vec<SecretKey> {
    let mut keys: Vec<SecretKey> = Vec::new();
    let edges: Vec<[u8; 32]> = [1, 2, 3].map(|n| { let mut bytes = [0; 32]; bytes[31] = n; bytes }).into();

    while keys.len() < count {
        let new = match rng.below(6) {
            0 => SecretKey::deserialize(rng.pick(&edges)),

            // a serialisation that begins or ends with zeros
            1 => { let mut bytes = rng.bytes(32); bytes[0] = 0; SecretKey::deserialize(bytes) }
            2 => { let mut bytes = rng.bytes(32); bytes[..10].fill(0); SecretKey::deserialize(bytes) }
            3 => { let mut bytes = rng.bytes(32); bytes[31] = 0; SecretKey::deserialize(bytes) }
            _ => Ok(SecretKey::random())
        };

        let new = new.unwrap();

        if !keys.contains(&new) {
            keys.push(new);
        }
    }

    keys
}

/// Messages, all different, but some of them hardly.
pub fn some_messages(rng: &mut Rng, count: usize) -> Vec<Vec<u8>> {
    let len = *rng.pick(&[0, 1, 2, 8, 31, 32, 33, 63, 64, 65, 72, 127, 128, 300, 5000, 70000]);
    let mut messages = vec![if rng.chance(10) { vec![0; len] } else { rng.bytes(len) }];

    while messages.len() < count {
        let mut new = rng.pick(&messages).clone();

        match rng.below(9) {
            0 => new.push(0),
            1 => new.push(rng.next() as u8),
            2 => { new.pop(); }
            3 => new.insert(0, 0),
            4 if !new.is_empty() => { new.remove(0); }
            5 => { let len = rng.below(100); new = rng.bytes(len); }
            6 => new.extend(new.clone()),
            7 if new.len() > 1 => new.reverse(),

            _ if !new.is_empty() => {
                let at = rng.below(new.len());
                new[at] ^= 1 << rng.below(8);
            }

            _ => new.extend(b"\r\n")
        }

        if !messages.contains(&new) {
            messages.push(new);
        }
    }

    messages
}

fn flip(bytes: &mut [u8], from: usize, to: usize, rng: &mut Rng) {
    let at = rng.range(from, to - 1);
    bytes[at] ^= 1 << rng.below(8);
}

fn cut(bytes: &mut Vec<u8>, to: usize, rng: &mut Rng) {
    let len = if rng.chance(50) { bytes.len() - 1 } else { rng.range(to.min(bytes.len() - 1), bytes.len() - 1) };
    bytes.truncate(len);
}

fn extend(bytes: &mut Vec<u8>, rng: &mut Rng) {
    let len = rng.range(1, 70);
    let more = if rng.chance(30) { vec![0; len] } else { rng.bytes(len) };
    bytes.extend(more);
}

pub fn altered_signature(signer: &SecretKey, message: &[u8], alter: &str, rng: &mut Rng) -> Vec<u8> {
    let mut signature = signer.create_signature(message);

    match alter {
        "none" => (),
        "bit" => { let len = signature.len(); flip(&mut signature, 0, len, rng); }
        "cut" => cut(&mut signature, 0, rng),
        "longer" => extend(&mut signature, rng),
        "empty" => signature.clear(),
        "swapped" => signature.rotate_left(32),

        // the other root
        "high" => {
            let (r, s) = k256::ecdsa::Signature::from_slice(&signature).unwrap().split_scalars();
            signature = k256::ecdsa::Signature::from_scalars(r, -s).unwrap().to_vec();
        }

        "zero" => match rng.below(3) {
            0 => signature[..32].fill(0),
            1 => signature[32..].fill(0),
            _ => signature.fill(0)
        }

        "max" => match rng.below(3) {
            0 => signature[..32].fill(0xff),
            1 => signature[32..].fill(0xff),
            _ => signature.fill(0xff)
        }

        "der" => signature = k256::ecdsa::Signature::from_slice(&signature).unwrap().to_der().as_bytes().to_vec(),
        "random" => { let len = *rng.pick(&[64, 64, 64, 63, 65, 0, 1, 128, 8]); signature = rng.bytes(len); }
        "of another message" => signature = signer.create_signature([message, b"?"].concat().repeat(2)),
        "of another key" => signature = SecretKey::random().create_signature(message),
        _ => unreachable!("{alter}")
    }

    signature
}

fn altered_capsule(signer: &SecretKey, message: &[u8], alter: &str, rng: &mut Rng) -> Vec<u8> {
    let mut capsule = signer.create_encapsulated_signature(message);

    // where the parts are is not the point: it is found out from the signature
    let signature = signer.create_signature(message);
    let start = (0..=capsule.len() - signature.len()).find(|at| capsule[*at..].starts_with(&signature)).unwrap_or(0);
    let end = if start == 0 { capsule.len() } else { start + signature.len() };
    let len = capsule.len();

    match alter {
        "none" => (),
        // still within the capsule
        "bit of length" if start == 8 && rng.chance(50) => {
            let bits: Vec<u64> = (0..63).map(|bit| signature.len() as u64 ^ 1 << bit).filter(|stated| *stated as usize <= len - 8).collect();
            capsule[..8].copy_from_slice(&rng.pick(&bits).to_be_bytes());
        }

        "bit of length" if start > 0 => flip(&mut capsule, 0, start, rng),
        "bit of message" if end < len => flip(&mut capsule, end, len, rng),
        "bit of signature" | "bit of length" | "bit of message" => flip(&mut capsule, start, end, rng),
        "cut" => cut(&mut capsule, end, rng),
        "cut to less than its length" => { let to = rng.below(end); capsule.truncate(to); }
        "longer" => extend(&mut capsule, rng),
        "empty" => capsule.clear(),

        "boundary" if start >= 8 => {
            let stated = signature.len() as i64 + *rng.pick(&[-64, -63, -1, 1, 2, 8]);
            capsule[..8].copy_from_slice(&stated.to_be_bytes());
        }

        "no signature" => { capsule = vec![0; 8]; capsule.extend(message); }

        "huge" if start >= 8 => {
            let stated = match rng.below(6) {
                0 => u64::MAX,
                1 => u64::MAX - 7,
                2 => u64::MAX - 8 + rng.next() % 9,
                3 => 1 << 63,
                4 => (len as u64).wrapping_sub(8).wrapping_add(rng.next() % 10),
                _ => rng.next()
            };

            capsule[..8].copy_from_slice(&(if stated == signature.len() as u64 { stated + 1 } else { stated }).to_be_bytes());
        }

        "message of another" => { capsule.truncate(end); capsule.extend(message.iter().chain(b"!")); }
        "signature of another" => capsule[start..end].copy_from_slice(&SecretKey::random().create_signature(message)),
        _ => { let len = rng.below(200); capsule = rng.bytes(len); }
    }

    capsule
}

fn altered_bytes(bytes: &mut Vec<u8>, alter: &str, secret: bool, rng: &mut Rng) {
    match alter {
        "none" => (),
        "bit" => { let len = bytes.len(); flip(bytes, 0, len, rng); }
        "cut" => cut(bytes, 0, rng),
        "cut at the start" => { let count = if rng.chance(60) { 1 } else { rng.range(1, bytes.len() - 1) }; bytes.drain(..count); }
        "longer" => extend(bytes, rng),
        "longer at the start" => { let count = rng.range(1, 3); bytes.splice(..0, vec![if rng.chance(70) { 0 } else { 2 }; count]); }
        "empty" => bytes.clear(),

        _ if secret => match rng.below(4) {
            0 => bytes.fill(0),
            1 => bytes.fill(0xff),

            // the order of the group, and more
            n => {
                *bytes = vec![
                    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
                    0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41
                ];

                if n == 3 {
                    bytes[31] += rng.range(1, 100) as u8;
                }
            }
        },

        _ => match rng.below(6) {
            0 => bytes[0] = *rng.pick(&[0, 1, 4, 6, 7, 8, 0x12, 0x82, 0xff]),
            1 => bytes[1..].fill(0xff),
            2 => *bytes = vec![0],
            3 => *bytes = [vec![4], rng.bytes(64)].concat(),
            4 => *bytes = [vec![*rng.pick(&[6, 7])], rng.bytes(64)].concat(),

            // not on the curve
            _ => while k256::PublicKey::from_sec1_bytes(bytes).is_ok() {
                let at = rng.range(1, 32);
                bytes[at] ^= 1 << rng.below(8);
            }
        }
    }
}

fn altered_text(key: &[u8], alter: &str, secret: bool, rng: &mut Rng) -> String {
    let text = base64_encode(key);
    let mut chars: Vec<char> = text.chars().collect();

    match alter {
        "none" => text,

        "bit" if rng.chance(50) => {
            let end = chars.iter().position(|c| *c == '=').unwrap_or(chars.len());
            let at = if rng.chance(20) { end - 1 } else { rng.below(end) };
            let before = chars[at];

            while chars[at] == before {
                chars[at] = *rng.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_") as char;
            }

            chars.into_iter().collect()
        }

        "cut" if rng.chance(50) => { chars.truncate(if rng.chance(50) { text.len() - 1 } else { rng.below(text.len()) }); chars.into_iter().collect() }

        "invalid" if rng.chance(60) => {
            let at = rng.below(chars.len());

            match rng.below(6) {
                0 => chars[at] = '+',
                1 => chars[at] = '/',
                2 => chars.insert(at, ' '),
                3 => chars.insert(at, '\n'),
                4 => chars.push('='),
                _ => chars[at] = *rng.pick(&['é', '漢', '\0', '=', '%', '"'])
            }

            // in place of padding it would be the same text
            let changed: String = chars.into_iter().collect();
            if changed == text { String::from("?") } else { changed }
        }

        _ => {
            let mut bytes = key.to_vec();
            altered_bytes(&mut bytes, alter, secret, rng);
            base64_encode(bytes)
        }
    }
}

/// What serde makes of the key, damaged.
fn altered_json(written: Json, alter: &str, secret: bool, rng: &mut Rng) -> Json {
    if secret {
        let mut bytes: Vec<u8> = written["0"].as_array().map(|bytes| bytes.iter().map(|byte| byte.as_u64().unwrap() as u8).collect()).unwrap_or_default();

        if alter == "none" || bytes.is_empty() {
            return written;
        }

        if alter == "invalid" && rng.chance(70) {
            let at = rng.below(bytes.len()).to_string().parse::<usize>().unwrap();
            let mut changed = written.clone();

            match rng.below(8) {
                0 => changed["0"][at] = json!(256),
                1 => changed["0"][at] = json!(-1),
                2 => changed["0"][at] = json!("1"),
                3 => changed["0"][at] = json!(null),
                4 => changed["0"][at] = json!(1.5),
                5 => changed = json!({ "1": written["0"] }),
                6 => changed["0"] = json!(null),
                _ => changed = rng.pick(&[json!(null), json!({}), json!("x"), json!(7), json!([[]])]).clone()
            }

            return changed;
        }

        altered_bytes(&mut bytes, alter, true, rng);
        return json!({ "0": bytes });
    }

    let Some(text) = written.as_str() else { return written };
    let mut chars: Vec<char> = text.chars().collect();

    match alter {
        "none" => return written,

        "bit" => {
            let at = rng.below(chars.len());
            let before = chars[at].to_ascii_lowercase();

            while chars[at].to_ascii_lowercase() == before {
                chars[at] = if text.chars().any(|c| c.is_ascii_lowercase()) { *rng.pick(b"0123456789abcdef") } else { *rng.pick(b"0123456789ABCDEF") } as char;
            }
        }

        "cut" => chars.truncate(rng.below(text.len())),
        "cut at the start" => { chars.drain(..rng.range(1, text.len() - 1)); }
        "longer" => chars.extend("00".repeat(rng.range(1, 4)).chars()),
        "longer at the start" => { chars.splice(..0, "00".chars()); }
        "empty" => chars.clear(),

        _ => match rng.below(4) {
            0 => { let at = rng.below(chars.len()); chars[at] = *rng.pick(&['g', ' ', 'é', '\0', '-']); }
            1 => { chars.pop(); }
            2 => return rng.pick(&[json!(null), json!({}), json!([]), json!(7), json!([1, 2, 3])]).clone(),
            _ => chars = "zz".repeat(20).chars().collect()
        }
    }

    json!(chars.into_iter().collect::<String>())
}

/// What reading comes to. A key that isn't the same has to be what is written there.
fn outcome<K: PartialEq, E>(read: Result<Result<K, E>, String>, key: &K, is_written: impl FnOnce(&K) -> bool) -> Json {
    match read {
        Err(panic) => json!(panic),
        Ok(Err(_)) => json!("error"),
        Ok(Ok(read)) if read == *key => json!("same"),
        Ok(Ok(read)) if is_written(&read) => json!("another"),
        Ok(Ok(_)) => json!("one that is written otherwise")
    }
}

fn read(key: &SecretKey, kind: &str, form: &str, alter: &str, rng: &mut Rng) -> Json {
    let secret = kind == "secret";
    let public = key.public_key();
    let original = if secret { key.serialize() } else { public.to_bytes().to_vec() };

    match form {
        "bytes" => {
            let mut bytes = original;
            altered_bytes(&mut bytes, alter, secret, rng);

            if secret {
                outcome(guarded(|| SecretKey::deserialize(&bytes)), key, |read| read.serialize() == bytes)
            } else {
                outcome(guarded(|| PublicKey::from_bytes(&bytes)), &public, |read| read.to_bytes()[..] == bytes)
            }
        }

        "base64" => {
            // as the code writes it, or it is not this one's alphabet
            let written = if secret { key.to_base64() } else { public.to_base64() };

            if base64_decode(&written) != Ok(original.clone()) {
                return json!("other bytes than its own");
            }

            let text = altered_text(&original, alter, secret, rng);

            if secret {
                outcome(guarded(|| SecretKey::from_base64(&text)), key, |read| read.to_base64() == text)
            } else {
                outcome(guarded(|| PublicKey::from_base64(&text)), &public, |read| read.to_base64() == text)
            }
        }

        _ => {
            let written = if secret { serde_json::to_value(key) } else { serde_json::to_value(&public) }.unwrap();
            let changed = altered_json(written, alter, secret, rng);
            let text = changed.to_string();

            if secret {
                let read = guarded(|| if form == "json" { serde_json::from_str::<SecretKey>(&text) } else { serde_json::from_value(changed.clone()) });
                outcome(read, key, |read| serde_json::to_value(read).unwrap() == changed)
            } else {
                let read = guarded(|| if form == "json" { serde_json::from_str::<PublicKey>(&text) } else { serde_json::from_value(changed.clone()) });
                outcome(read, &public, |read| serde_json::to_value(read).unwrap() == changed)
            }
        }
    }
}

fn hash_of(value: &impl Hash) -> u64 {
    let mut hasher = DefaultHasher::new();
    value.hash(&mut hasher);
    hasher.finish()
}

struct World {
    keys: Vec<SecretKey>,
    messages: Vec<Vec<u8>>,
    secrets: HashMap<[u8; 32], usize>
}

fn number(value: &Json) -> usize {
    value.as_u64().unwrap() as usize
}

impl World {
    fn new(rng: &mut Rng) -> Self {
        let mut messages = some_messages(rng, 3);

        // long ones, too
        if rng.chance(15) {
            let more = rng.bytes(rng.clone().range(65_530, 140_000));
            messages.iter_mut().for_each(|message| message.extend(&more));
        }

        let mut keys = some_keys(rng, 3);

        // one of them the negative of another, which is a different key
        if rng.chance(30) {
            let negative = negative(&keys[0]);

            if !keys.contains(&negative) {
                keys[1] = negative;
            }
        }

        Self { keys, messages, secrets: HashMap::new() }
    }

    fn key(&self, n: &Json) -> &SecretKey {
        &self.keys[number(n) - 1]
    }

    /// For each key the first one that is on the same line through the curve's center.
    fn lines(&self) -> Vec<usize> {
        let x = |key: &SecretKey| key.public_key().to_bytes()[1..].to_vec();
        self.keys.iter().map(|key| self.keys.iter().position(|other| x(other) == x(key)).unwrap() + 1).collect()
    }

    fn message(&self, n: &Json) -> &[u8] {
        &self.messages[number(n) - 1]
    }

    fn perform(&mut self, case: &Json, rng: &mut Rng) -> Json {
        let mut event = case.clone();
        let alter = case["alter"].as_str().unwrap_or_default();

        match case["e"].as_str().unwrap() {
            "verify" => {
                let signature = altered_signature(self.key(&case["by"]), self.message(&case["over"]), alter, rng);

                event["result"] = match guarded(|| self.key(&case["with"]).public_key().verify_signature(self.message(&case["message"]), &signature)) {
                    Err(panic) => json!(panic),
                    Ok(Err(_)) => json!("error"),
                    Ok(Ok(valid)) => json!(if valid { "valid" } else { "invalid" })
                };
            }

            "open" => {
                let capsule = altered_capsule(self.key(&case["by"]), self.message(&case["over"]), alter, rng);

                event["result"] = match guarded(|| self.key(&case["with"]).public_key().decode_encapsulated_signature(&capsule)) {
                    Err(panic) => { event["what"] = json!(panic); json!(-2) }
                    Ok(Err(_) | Ok(None)) => json!(0),
                    Ok(Ok(Some(content))) => json!(self.messages.iter().position(|message| *message == content).map_or(-1, |n| n as i64 + 1))
                };
            }

            "read" => event["result"] = guarded(|| read(self.key(&case["key"]), case["kind"].as_str().unwrap(), case["form"].as_str().unwrap(), alter, rng)).unwrap_or_else(|panic| json!(panic)),

            "equal" => {
                let (a, b) = (self.key(&case["a"]), self.key(&case["b"]));
                let (a_public, b_public) = (a.public_key(), b.public_key());
                event["result"] = json!((a == b) && (a_public == b_public));
                event["hash"] = json!((hash_of(a) == hash_of(b)) && (hash_of(&a_public) == hash_of(&b_public)));
            }

            "share" => {
                let salt: Vec<u8> = case["salt"].as_array().unwrap().iter().map(|byte| byte.as_u64().unwrap() as u8).collect();
                let given = if salt.is_empty() && rng.chance(70) { None } else { Some(&salt[..]) };
                let next = self.secrets.len();

                event["value"] = match guarded(|| self.key(&case["a"]).create_shared_secret(&self.key(&case["b"]).public_key(), given)) {
                    Err(panic) => { event["what"] = json!(panic); json!(-1) }
                    Ok(secret) => json!(*self.secrets.entry(secret).or_insert(next))
                };
            }

            other => unreachable!("{other}")
        }

        event
    }
}

fn random_case(cases: &[Json], rng: &mut Rng) -> Json {
    let mut case = rng.pick(cases).clone();

    if case["e"] == "share" && rng.chance(60) {
        let len = *rng.pick(&[1, 8, 31, 32, 33, 63, 64, 65, 66, 130]);
        let mut salt = if rng.chance(50) { vec![7; len] } else { rng.bytes(len) };

        if rng.chance(40) {
            salt.push(0);
        }

        case["salt"] = json!(salt);
    }

    for signer in ["by", "over", "with", "message", "key", "a", "b"] {
        if case.get(signer).is_some() && rng.chance(40) {
            case[signer] = json!(rng.range(1, 3));
        }
    }

    // most of them shall be right
    if case.get("alter").is_some() && rng.chance(20) {
        case["alter"] = json!("none");
    }

    case
}

pub fn campaign(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut rng = Rng::new(seed, 9100 + shard);
    let cases = plan["cases"].as_array().unwrap();
    let rounds = plan["rounds"].as_u64().unwrap();
    let random = plan["random"].as_bool().unwrap();

    for round in 0..rounds {
        let mut order: Vec<Json> = cases.clone();
        rng.shuffle(&mut order);

        for part in order.chunks(100) {
            watch(|| format!("crypto, round {round}"));
            let mut world = World::new(&mut rng);
            let events = part.iter().map(|case| if random { let case = random_case(cases, &mut rng); world.perform(&case, &mut rng) } else { world.perform(case, &mut rng) }).collect();
            histories.header = json!({ "lines": world.lines() });
            histories.add(events, json!({ "round": round }));
        }
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}

// ---------------------------------------------------------------- fresh values

/// Fresh values of all kinds, each as its kind and what it is.
fn values(count: usize, client: &SecretKey) -> Vec<(&'static str, String)> {
    let mut values = Vec::new();

    for n in 0..count {
        values.push(("seed", safe_random_u64_long().to_string()));
        values.push(("seed", Request::new(client, InfoResponse::new(client)).proof_seed.to_string()));
        values.push(("seed", InfoResponse::new(client).proof_seed.to_string()));
        values.push(("number", safe_random_u64().to_string()));

        if n % 4 == 0 {
            values.push(("key", SecretKey::random().to_base64()));
        }
    }

    values
}

/// Prints fresh values, to be compared with those of other processes.
pub fn print_values(count: usize) {
    for (kind, value) in values(count, &SecretKey::random()) {
        println!("{kind} {value}");
    }
}

/// Fresh values made by turns, by threads at once, and by other processes.
pub fn fresh(plan: &Json, _: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("fresh-{shard}"));
    let count = plan["count"].as_u64().unwrap() as usize;
    watch(|| String::from("fresh values"));

    let client = SecretKey::random();
    let start = || std::process::Command::new(std::env::current_exe().unwrap()).args(["values", &count.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let processes = [start(), start()];

    let mut made = values(count, &client);
    let threads: Vec<_> = (0..4).map(|_| { let client = client.clone(); std::thread::spawn(move || values(count, &client)) }).collect();

    for thread in threads {
        made.extend(thread.join().unwrap_or_else(|_| vec![("seed", String::from("0"))]));
    }

    for process in processes {
        let output = process.wait_with_output().unwrap();

        for line in String::from_utf8(output.stdout).unwrap().lines() {
            let (kind, value) = line.split_once(' ').unwrap();
            made.push((["seed", "number", "key"].into_iter().find(|name| *name == kind).unwrap(), value.to_string()));
        }
    }

    let mut known = HashMap::new();

    let events: Vec<Json> = made.into_iter().map(|(kind, value)| {
        let next = known.len();
        let low = kind == "seed" && value.parse::<u64>().unwrap() < 1 << 63;
        json!({ "e": "fresh", "kind": kind, "low": low, "value": *known.entry(value).or_insert(next) })
    }).collect();

    histories.add(events, json!({}));
    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}
