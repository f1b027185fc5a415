mod fsgate;
mod util;
mod sched;
mod script;
mod inbox;
mod router;
mod net;
mod server;
mod client;
mod traversal;
mod ports;
mod address;
mod crypto;
mod message;
mod wire;
mod http;
mod network;

use std::path::Path;
use std::time::Duration;

fn main() {
    if std::env::var("SHOW_PANICS").is_ok() { std::panic::set_hook(Box::new(|p| eprintln!("{p}"))); }
    let args: Vec<String> = std::env::args().collect();

    if args[1] == "child" {
        let script = util::read_json(&args[2]);

        script::child(&script, |script, base, emit| match script["system"].as_str().unwrap() {
            "inbox" => script::run::<inbox::InboxSubject>(script, base, emit),
            "router" => script::run::<router::RouterSubject>(script, base, emit),
            "servers" => script::run::<server::ServersSubject>(script, base, emit),
            _ => unreachable!()
        });
    }

    if args[1] == "values" {
        return crypto::print_values(args[2].parse().unwrap());
    }

    // harness <command> <plan> <output>
    let plan = util::read_json(&args[2]);
    let seed = plan["seed"].as_u64().unwrap();

    util::set_base(Path::new(plan["scratch"].as_str().unwrap()));
    util::start_watch(Path::new(&args[3]), Duration::from_secs(plan["watch"].as_u64().unwrap_or(60)));

    // a panic that nothing else caught is one of the code under test
    let result = util::guarded(|| match args[1].as_str() {
        "inbox-walks" => inbox::walks(&plan, seed),
        "inbox" => inbox::campaign(&plan, seed),
        "router-walks" => router::walks(&plan, seed),
        "router" => router::campaign(&plan, seed),
        "server-walks" => server::walks(&plan, seed),
        "servers" => server::campaign(&plan, seed),
        "sessions" => client::sessions(&plan, seed),
        "lookups" => client::lookups(&plan, seed),
        "ports" => ports::campaign(&plan, seed),
        "addresses" => address::campaign(&plan, seed),
        "network" => network::campaign(&plan, seed),
        "http" => http::campaign(&plan, seed),
        "documents" => wire::campaign(&plan, seed),
        "messages" => message::campaign(&plan, seed),
        "crypto" => crypto::campaign(&plan, seed),
        "fresh" => crypto::fresh(&plan, seed),
        "traversals" => traversal::campaign(&plan, seed),
        command => panic!("unknown command {command}")
    });

    util::finish(result.unwrap_or_else(|panic| serde_json::json!({ "failure": { "kind": "panic", "what": panic } })));
}
