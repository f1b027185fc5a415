//! Messages: written, damaged, mixed, relabelled and read by anyone.

use std::str::FromStr;

use hyperborealib::crypto::encoding::base64::{decode as base64_decode, encode as base64_encode};
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use crate::crypto::some_messages;
use crate::script::Histories;
use crate::util::*;

fn encoding_of(part: &Json) -> MessageEncoding {
    let encryption = match part["enc"].as_str().unwrap() { "aes" => Encryption::Aes256Gcm, "chacha" => Encryption::ChaCha20Poly1305, _ => Encryption::None };
    let compression = match part["comp"].as_str().unwrap() { "deflate" => Compression::Deflate, "brotli" => Compression::Brotli, _ => Compression::None };
    MessageEncoding::new(Encoding::Base64, encryption, compression)
}

fn any_level(rng: &mut Rng) -> CompressionLevel {
    *rng.pick(&[CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality])
}

/// Contents, all different: random ones, and such that can be compressed.
fn some_contents(rng: &mut Rng) -> Vec<Vec<u8>> {
    match rng.below(5) {
        0 => { let first = rng.text(5000).into_bytes(); let second = rng.text(300).repeat(5).into_bytes(); if first == second { some_contents(rng) } else { vec![first, second] } }

        1 => {
            let len = *rng.pick(&[10, 1000, 66000]);
            vec![vec![7; len], vec![7; len + 1]]
        }

        // contents that look as if they were compressed
        2 => {
            let compression = *rng.pick(&[Compression::Deflate, Compression::Brotli]);
            (0..2).map(|n| { let text = rng.text(200); compression.compress(format!("{n}{text}"), any_level(rng)).unwrap() }).collect()
        }

        _ => some_messages(rng, 2)
    }
}

/// The same part with other bytes in it, or none.
fn damaged(text: &str, damage: &str, contents: &[Vec<u8>], rng: &mut Rng) -> String {
    let original = base64_decode(text).unwrap_or_default();
    let mut bytes = original.clone();

    match damage {
        "none" => return text.to_string(),
        "bit" if !bytes.is_empty() => { let at = rng.below(bytes.len()); bytes[at] ^= 1 << rng.below(8); }
        "cut" if !bytes.is_empty() => { let len = if rng.chance(50) { bytes.len() - 1 } else { rng.below(bytes.len()) }; bytes.truncate(len); }
        "empty" if !bytes.is_empty() => bytes.clear(),
        "random" => { let len = rng.below(200); bytes = rng.bytes(len); }

        "invalid" => {
            let mut chars: Vec<char> = text.chars().collect();
            let odd = *rng.pick(&['+', '/', ' ', '\n', 'é', '\0', '*', '漢']);
            chars.insert(rng.below(chars.len() + 1), odd);
            return chars.into_iter().collect();
        }

        _ => { let len = rng.range(1, 40); bytes.extend(rng.bytes(len)); }
    }

    if bytes == original || contents.contains(&bytes) { damaged(text, "longer", contents, rng) } else { base64_encode(bytes) }
}

/// Whether someone without their keys finds the content or signature in it.
fn seen(message: &Message, sender: &SecretKey, receiver: &PublicKey, content: &[u8]) -> bool {
    let signature = sender.create_signature(content);

    // what could appear by chance doesn't count: garbage decompresses to zeros, say
    let telling = |part: &[u8]| part.len() >= 12 && part.iter().collect::<std::collections::HashSet<_>>().len() >= 10;
    let contains = |view: &[u8], part: &[u8]| telling(part) && view.windows(part.len()).any(|window| window == part);

    let mut guesses = vec![[0; 32], [0xff; 32]];
    let (from, to) = (sender.public_key().to_bytes(), receiver.to_bytes());
    guesses.push(from[1..].try_into().unwrap());
    guesses.push(to[1..].try_into().unwrap());
    guesses.push(from[..32].try_into().unwrap());
    guesses.push(to[..32].try_into().unwrap());
    guesses.push(hyperborealib::crypto::asymmetric::HKDF_INFO[..32].try_into().unwrap());

    // what anyone can do with a key made up for it
    let made_up = SecretKey::deserialize([1; 32]).unwrap();
    guesses.push(made_up.create_shared_secret(receiver, None));
    guesses.push(made_up.create_shared_secret(&sender.public_key(), None));

    [&message.content, &message.sign].into_iter().any(|text| {
        let bytes = base64_decode(text).unwrap_or_default();
        let mut views = vec![text.clone().into_bytes(), bytes.clone()];

        for compression in [Compression::Deflate, Compression::Brotli] {
            views.extend(compression.decompress(&bytes));
        }

        for guess in &guesses {
            for encryption in [Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305] {
                if let Ok(view) = encryption.decrypt(&bytes, guess) {
                    views.push(view);
                }
            }
        }

        views.iter().any(|view| contains(view, content) || contains(view, &signature))
    })
}

struct World {
    keys: Vec<SecretKey>,
    contents: Vec<Vec<u8>>,
    /// Level of compression, if it's not any.
    level: Option<CompressionLevel>
}

impl World {
    fn key(&self, n: &Json) -> &SecretKey {
        &self.keys[n.as_u64().unwrap() as usize - 1]
    }

    /// The part as it was written, and whether its message shows what it shouldn't.
    fn part(&self, part: &Json, rng: &mut Rng) -> Result<(String, bool), String> {
        let content = &self.contents[part["n"].as_u64().unwrap() as usize - 1];
        let (from, to) = (self.key(&part["from"]), self.key(&part["to"]).public_key());
        let level = self.level.unwrap_or_else(|| any_level(rng));

        let message = guarded(|| Message::create(from, &to, content, encoding_of(part), level))?.map_err(|err| err.to_string())?;
        let shown = seen(&message, from, &to, content);
        let text = if part["what"] == "content" { message.content } else { message.sign };

        Ok((damaged(&text, part["damage"].as_str().unwrap(), &self.contents, rng), shown))
    }

    fn perform(&self, case: &Json, rng: &mut Rng) -> Json {
        let mut event = case.clone();
        event["e"] = json!("read");

        let (content, sign) = match (self.part(&case["content"], rng), self.part(&case["sign"], rng)) {
            (Ok(content), Ok(sign)) => (content, sign),

            (Err(err), _) | (_, Err(err)) => {
                event["result"] = json!(-3);
                event["what"] = json!(err);
                event["seen"] = json!([false, false]);
                return event;
            }
        };

        event["seen"] = json!([content.1, sign.1]);

        // messages are read after they were sent
        let message = Message::new(content.0, sign.0, encoding_of(&case["label"]));
        let sent = guarded(|| Message::from_json(&serde_json::from_str::<Json>(&message.to_json().unwrap().to_string()).unwrap()));

        event["result"] = match sent {
            Ok(Ok(sent)) if sent == message => match guarded(|| sent.read(self.key(&case["receiver"]), &self.key(&case["sender"]).public_key())) {
                Err(panic) => { event["what"] = json!(panic); json!(-2) }
                Ok(Err(_)) => json!(0),
                Ok(Ok(content)) => json!(self.contents.iter().position(|known| *known == content).map_or(-1, |n| n as i64 + 1))
            },

            _ => json!(-4)
        };

        event
    }
}

pub fn campaign(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut rng = Rng::new(seed, 9500 + shard);
    let cases = plan["cases"].as_array().unwrap();

    for round in 0..plan["rounds"].as_u64().unwrap() {
        let mut order: Vec<Json> = cases.clone();
        rng.shuffle(&mut order);

        for part in order.chunks(50) {
            watch(|| format!("messages, round {round}"));
            let first = rng.next();
            let world = World { keys: (0..3).map(|n| lone_key(seed, first.wrapping_add(n))).collect(), contents: some_contents(&mut rng), level: None };
            let events = part.iter().map(|case| world.perform(case, &mut rng)).collect();
            histories.add(events, json!({ "round": round, "lengths": world.contents.iter().map(Vec::len).collect::<Vec<_>>() }));
        }
    }

    // large ones
    let most = plan["largest"].as_u64().unwrap() as usize;
    let mut events = Vec::new();

    for (number, case) in cases.iter().filter(|case| case["plain"] == true).enumerate().filter(|_| most > 0) {
        let len = rng.range(most / 4, most);
        let mut content = if number % 2 == 0 { rng.bytes(len) } else { let text = format!("-{}", rng.text(3000)); text.repeat(len / text.len() + 1).into_bytes() };
        content.truncate(len);
        let other = content[..len / 2].to_vec();
        watch(|| format!("message of {len} bytes"));
        let world = World { keys: (0..3).map(|n| lone_key(seed, n + 50)).collect(), contents: vec![content, other], level: None };
        events.push(world.perform(case, &mut rng));
    }

    // and such that are compressed to much less
    let huge = plan["huge"].as_u64().unwrap_or(0) as usize;

    for case in cases.iter().filter(|case| case["plain"] == true && huge > 0) {
        let mut content = format!("-{}", rng.text(300_000)).into_bytes().repeat(10);
        content = content.repeat(huge / content.len() + 1);
        content.extend(b"end");
        let other = content[..content.len() - 1].to_vec();
        watch(|| format!("message of {} bytes", content.len()));
        let world = World { keys: (0..3).map(|n| lone_key(seed, n + 50)).collect(), contents: vec![content, other], level: Some(CompressionLevel::Fast) };
        events.push(world.perform(case, &mut rng));
    }

    if !events.is_empty() {
        histories.add(events, json!({ "largest": most }));
    }

    // names of encodings
    for case in cases.iter().filter(|case| case["plain"] == true) {
        let encoding = encoding_of(&case["label"]);
        assert_eq!(MessageEncoding::from_str(&encoding.to_string()).ok(), Some(encoding), "encoding's own name");
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}
