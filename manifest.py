#!/usr/bin/env python3
"""Writes MANIFEST.json from what run.py has."""

import json

from run import CHECKS

TECHNIQUE = {
    "C01": "TLA+ specification (Inbox), all transitions replayed into the code, recorded histories judged by TLC",
    "C02": "TLA+ specification (Inbox), controlled schedules of the real code recorded and judged by TLC for linearizability",
    "C03": "TLA+ specification (Inbox), recorded histories over adversarial channel names judged by TLC",
    "C04": "TLA+ specification (Inbox) with crashes and faults, every crash and fault point of the real code recorded and judged by TLC",
    "C05": "TLA+ specification (Router), all transitions replayed into the code, recorded histories judged by TLC",
    "C06": "TLA+ specification (Router), controlled schedules, crash and fault points of the real code recorded and judged by TLC",
    "C08": "TLA+ specification (Server), all transitions of valid and invalid requests replayed into the code, recorded histories judged by TLC",
    "C09": "TLA+ specification (Server), all transitions replayed into the code, histories, schedules and crashes recorded and judged by TLC",
    "C10": "TLA+ specification (Server), all transitions replayed into the code, histories and schedules recorded and judged by TLC",
    "C07": "TLA+ specification (Router), all orders of dated announcements replayed, recorded histories and schedules judged by TLC",
    "C11": "TLA+ specification (Lookup), searches of the real client through all networks of the bounded specification and random ones recorded and judged by TLC",
    "C12": "TLA+ specification (Session), all transitions of every operation with every kind of answer replayed into the real client",
    "C13": "TLA+ specification (Traversal), traversals by the real server of all networks of the bounded specification and random ones recorded and judged by TLC",
    "C17": "TLA+ specification (PortForward), all operations in all states performed by the real forwarder, random and overlapping ones too, judged by TLC",
    "C18": "TLA+ specification (Address), texts of all pieces of the bounded specification and random ones parsed and resolved by the real code, judged by TLC",
    "C14": "TLA+ specification (Message), all messages changed in up to two ways (three in the thorough tier) read by the real code as anyone, judged by TLC",
    "C15": "TLA+ specification (Wire), every kind of change at every path of every written type, random changes and random documents read by the real code, judged by TLC",
    "C19": "TLA+ specification (Http), all requests in every order of beginning and answering replayed over loopback sockets, free-running requests, hostile answers and whole servers recorded and judged by TLC",
    "C16": "TLA+ specification (Network, of Servers and their clients), all transitions replayed through real clients and servers, random, overlapping and scheduled histories judged by TLC",
    "C20": "TLA+ specification (Crypto), all operations with every kind of damage and random ones performed by the real code, fresh values of threads and processes, judged by TLC",
}

NOTE = {
    "C01": "Every transition of the bounded specification (2 receivers, 2 channels, 4 stored messages, limits 0..3, none and 2^64-1) and random long histories with restarts; trusts TLC and the harness's recording. Queues of up to 66,000 messages are polled in pieces.",
    "C02": "All schedules of storage calls of two to four operations up to a preemption bound, and free-running threads; the lock makes calls of one process overlap only at its gates. Several processes are not covered. The files' own design (InboxImpl) is shown to refine Inbox by TLC for a bounded instance.",
    "C03": "Hundreds of odd names and random ones, all in one storage, with decoy files around and all changes outside of the storage denied and reported. Receivers include keys whose public keys share most of their letters or their x coordinate.",
    "C04": "Every storage call of random operations as the crash point (writes torn, second crashes) and as a failing call, in random histories. Process death, not power loss. The files' own design (InboxImpl, with crashes) is shown to refine Inbox by TLC for a bounded instance.",
    "C05": "Every transition of the bounded specification (2 keys, 2 records per table) with all listings and lookups compared, and random histories with up to 6 keys. Tables of up to 3,000 records; keys that are negatives of each other or share long prefixes.",
    "C06": "As C02 and C04 for the routing table, with its files' own design (RouterImpl) shown to refine Router.",
    "C08": "Every request of the bounded specification (3 keys, every way to be invalid) in every reachable state through the real routes, and random histories with failing storage. Cryptography is ideal in the specification; forgeries are sampled.",
    "C09": "Every accepted request in every state of the bounded specification, with all tables and inboxes compared, overlapping requests and crashes in random histories. A proof covers the seed only, so replays are out of scope. Crowds of up to 1,100 clients and messages.",
    "C10": "Every lookup and listing in every state of the bounded specification, and overlapping requests. Listings are empty when the storage fails. Crowds with long tables and listings.",
    "C07": "Every order of 9 dates for 2 clients, equal dates and overlaps in recorded histories; dates up to the largest. The announce endpoint is covered by C08.",
    "C11": "All networks of three addresses with every kind of answer (four in the thorough tier), concretised randomly, and random networks of up to 60. Search order is left open. Also chains and hints in networks of up to 300.",
    "C12": "Every operation with every combination of stated key, signing key, signed seed, signature, record and certificate, in every state of the client, concretised randomly. Cryptography is ideal in the specification; forgeries are sampled.",
    "C13": "All networks of three records with distinct and with shared keys or addresses, any of them down, any table before, and random networks of up to 40 records. Also networks of up to 1,400 records.",
    "C17": "Two ports with every set of refused requests, random histories over the whole range of ports, and overlapping operations. The gateway is a stand-in at the interface of easy-upnp. Durations are compared with what the gateway was asked for.",
    "C18": "About 20,000 combinations of schemes, separators, prefixes and keys, and random texts, each resolved in networks where the client is found, not found or the server is down.",
    "C14": "Every combination of up to two changes to the parts, label, receiver and sender of a message in every encoding, concretised randomly; contents up to 1 MB (24 MB in the thorough tier). Cryptography is ideal in the specification.",
    "C15": "Every type with every single change (of 13 kinds, concretised randomly) at every path, up to three changes and made-up documents randomly; tokens with every kind of damage. What stands for an optional field, but is no value of it, is left open.",
    "C19": "Every transition of the bounded specification (kinds of requests on two connections, overlapping), random kinds at once, every way to answer the client wrongly, and the server's own routes over HTTP. Loopback only; bodies beyond axum's 2 MB limit are left open. Bodies up to 1.9 MB, answers up to 5 MB, floods of hundreds of requests.",
    "C16": "Every operation in every state of three instances of 2 to 4 servers and clients, random networks in memory and over HTTP with lost requests and servers going down, overlapping operations freely and by schedules. Servers and clients share one process.",
    "C20": "Every operation on 3 keys and 3 messages with every kind of damage, concretised randomly (edge keys, nearly equal messages). The specification is an ideal algebra: forgeries are sampled, not excluded by proof.",
}

NOT_YET = {}


def main():
    with open("properties.jsonl") as file:
        names = [json.loads(line)["id"] for line in file if line.strip()]

    checks = []

    for name in names:
        if name in CHECKS:
            checks.append({
                "property": name,
                "quick_cmd": f"python3 run.py {name}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {name}",
                "evidence_file": f"evidence/{name}.json",
                "technique": TECHNIQUE[name],
                "level": CHECKS[name][1],
                "level_note": NOTE[name]
            })

    manifest = {
        "version": 1,
        "setup_cmd": "python3 -c 'from verif import core; core.build()'",
        "checks": checks,
        "not_applicable": [{"property": name, "reason": NOT_YET.get(name, "specification and conformance check not built yet")} for name in names if name not in CHECKS],
        "notes": "No hooks in /repo: the harness interposes libc calls, the clock and the HTTP traits instead. See DESIGN.md."
    }

    with open("MANIFEST.json", "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


if __name__ == "__main__":
    main()
