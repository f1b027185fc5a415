//! The port forwarder against a gateway in memory (see fake-upnp).

use std::sync::Arc;
use std::time::Duration;

use easy_upnp::{PortMappingProtocol, GATEWAY};
use hyperborealib::port_forward::{PortForwarder, Protocol, UpnpPortForwarder};
use serde_json::{json, Value as Json};

use crate::script::Histories;
use crate::util::*;

fn protocol(name: &Json) -> Protocol {
    match name.as_str().unwrap() {
        "TCP" => Protocol::TCP,
        "UDP" => Protocol::UDP,
        _ => Protocol::Both
    }
}

fn name_of(protocol: PortMappingProtocol) -> &'static str {
    match protocol {
        PortMappingProtocol::TCP => "TCP",
        PortMappingProtocol::UDP => "UDP"
    }
}

fn mapping(of: &Json) -> (u16, PortMappingProtocol) {
    (of[0].as_u64().unwrap() as u16, if of[1] == "TCP" { PortMappingProtocol::TCP } else { PortMappingProtocol::UDP })
}

fn duration(rng: &mut Rng) -> Duration {
    if rng.chance(50) {
        return *rng.pick(&[Duration::ZERO, Duration::from_secs(1), Duration::from_millis(1500), Duration::from_secs(86400), Duration::from_secs(u32::MAX as u64), Duration::from_secs(1 << 32), Duration::from_secs((1 << 32) + 60), Duration::MAX]);
    }

    Duration::from_secs(rng.number() >> rng.range(0, 63))
}

/// Whether a request states the duration: in whole seconds, and the longest possible one for what is beyond.
fn states(stated: u32, duration: Duration) -> bool {
    let most = |seconds: u64| seconds.min(u32::MAX as u64);
    let seconds = duration.as_secs();
    let more = if duration.subsec_nanos() > 0 { seconds.saturating_add(1) } else { seconds };

    stated as u64 == most(seconds) || stated as u64 == most(more)
}

const PROTOCOLS: [&str; 3] = ["TCP", "UDP", "Both"];

/// Operations on a few ports, most of them granted.
fn random_ops(rng: &mut Rng, length: usize) -> Vec<Json> {
    let ports: Vec<u64> = (0..rng.range(1, 4)).map(|n| n as u64).map(|n| *rng.pick(&[n, 80, 443, 8080 + n, 65535 - n, 256 * n])).collect();
    let failing = *rng.pick(&[0, 10, 40]);

    (0..length).map(|_| {
        let name = *rng.pick(&["open", "open", "open", "close", "close", "discard", "expire", "storm"]);
        let mut fail = Vec::new();

        for port in &ports {
            for proto in ["TCP", "UDP"] {
                if name != "storm" && name != "expire" && rng.chance(failing) {
                    fail.push(json!([port, proto]));
                }
            }
        }

        json!({ "name": name, "port": rng.pick(&ports), "proto": rng.pick(if name == "expire" { &PROTOCOLS[..2] } else { &PROTOCOLS[..] }), "fail": fail, "ports": ports })
    }).collect()
}

/// Operations by several threads, followed by what the gateway holds then.
fn storm(forwarder: &Arc<UpnpPortForwarder>, op: &Json, rng: &mut Rng) -> Json {
    let ports = op["ports"].as_array().unwrap();

    // the last port is only opened, unless everything is discarded
    let discards = rng.chance(20);
    let last = ports.last().unwrap();
    let mut opened = Vec::new();

    let threads: Vec<Vec<(&str, u16, Json)>> = (0..4).map(|_| (0..rng.range(1, 8)).map(|_| {
        let port = rng.pick(ports);
        let proto = json!(rng.pick(&PROTOCOLS));

        if port == last && !discards {
            for part in if proto == "Both" { vec!["TCP", "UDP"] } else { vec![proto.as_str().unwrap()] } {
                opened.push(json!([port, part]));
            }

            return ("open", port.as_u64().unwrap() as u16, proto.clone());
        }

        let name = if discards && rng.chance(30) { "discard" } else if rng.chance(50) { "open" } else { "close" };
        (name, port.as_u64().unwrap() as u16, proto)
    }).collect()).collect();

    let ok = std::thread::scope(|scope| {
        let threads: Vec<_> = threads.iter().map(|ops| scope.spawn(|| {
            let runtime = runtime(1);

            ops.iter().all(|(name, port, proto)| {
                let result = guarded(|| runtime.block_on(async {
                    match *name {
                        "open" => forwarder.open(*port, protocol(proto), Duration::from_secs(60)).await,
                        "close" => forwarder.close(*port, protocol(proto)).await,
                        _ => forwarder.discard().await
                    }
                }));

                matches!(result, Ok(Ok(true)))
            })
        })).collect();

        threads.into_iter().map(|thread| thread.join().unwrap_or(false)).collect::<Vec<_>>().into_iter().all(|ok| ok)
    });

    let left: Vec<Json> = GATEWAY.lock().unwrap().mappings.keys().map(|(port, proto)| json!([port, name_of(*proto)])).collect();
    let used: Vec<Json> = ports.iter().flat_map(|port| [json!([port, "TCP"]), json!([port, "UDP"])]).collect();
    json!({ "e": "storm", "ok": ok, "left": left, "used": used, "always": opened })
}

pub fn campaign(plan: &Json, seed: u64) -> Json {
    let shard = plan["shard"].as_u64().unwrap();
    let mut histories = Histories::new(plan["out"].as_str().unwrap(), format!("{}-{shard}", plan["what"].as_str().unwrap()));
    let mut rng = Rng::new(seed, 7300 + shard);
    let runtime = runtime(1);
    let empty = Vec::new();
    let cases = plan["cases"].as_array().unwrap_or(&empty);
    let count = plan["count"].as_u64().unwrap_or(cases.len() as u64);

    for number in 0..count {
        let ops = if cases.is_empty() { random_ops(&mut rng, plan["length"].as_u64().unwrap() as usize) } else { cases[number as usize % cases.len()].as_array().unwrap().clone() };
        let forwarder = Arc::new(UpnpPortForwarder::new());
        *GATEWAY.lock().unwrap() = easy_upnp::Gateway::default();
        let mut events = Vec::new();

        // durations are known by their number
        let mut used = 0;

        for op in &ops {
            watch(|| format!("history {number}: {op}"));
            let name = op["name"].as_str().unwrap();
            let port = op["port"].as_u64().unwrap() as u16;

            if name == "storm" {
                GATEWAY.lock().unwrap().failing.clear();
                events.push(storm(&forwarder, op, &mut rng));
                continue;
            }

            if name == "expire" {
                GATEWAY.lock().unwrap().mappings.remove(&mapping(&json!([port, op["proto"]])));
                events.push(json!({ "e": "expire", "port": port, "proto": op["proto"] }));
                continue;
            }

            {
                let mut gateway = GATEWAY.lock().unwrap();
                gateway.failing = op["fail"].as_array().unwrap().iter().map(mapping).collect();
                gateway.calls.clear();
            }

            let duration = duration(&mut rng);
            used += 1;

            let result = guarded(|| runtime.block_on(async {
                match name {
                    "open" => forwarder.open(port, protocol(&op["proto"]), duration).await,
                    "close" => forwarder.close(port, protocol(&op["proto"])).await,
                    _ => forwarder.discard().await
                }
            }));

            let ok = match result {
                Ok(Ok(ok)) => ok,
                Ok(Err(_)) => false,

                Err(panic) => {
                    events.push(json!({ "e": "panic", "what": panic }));
                    break;
                }
            };

            let calls: Vec<Json> = GATEWAY.lock().unwrap().calls.iter().map(|call| json!({
                "kind": if call.add { "add" } else { "delete" },
                "port": call.port,
                "proto": name_of(call.protocol),
                "lasts": if states(call.duration, duration) { used } else { 0 }
            })).collect();

            events.push(json!({ "e": name, "port": port, "proto": op["proto"], "fail": op["fail"], "lasts": used, "calls": calls, "ok": ok }));
        }

        histories.add(events, json!({ "number": number }));
    }

    unwatch();
    let (count, events) = histories.finish();
    json!({ "histories": count, "events": events })
}
