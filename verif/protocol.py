"""Checks of messages (C14), of the wire format (C15) and of cryptography (C20)."""

from .ports import *


def c20():
    cases, explored = networks("MCCrypto")

    def performed(what, rounds, random):
        return recorded("crypto", "TraceCrypto", what, [{"cases": cases, "rounds": rounds, "random": random} for _ in range(CORES)])

    campaigns = {
        "all operations": performed("all", pick(8, 60), False),
        "random": performed("random", pick(15, 200), True),
        "fresh values": recorded("fresh", "TraceCrypto", "fresh", [{"count": pick(30, 200)} for _ in range(CORES)])
    }

    return coverage({}, campaigns, {"MCCrypto": explored}), ["cryptography is ideal in the specification: forgeries are sampled, not excluded by proof"]


def c14():
    cases, explored = networks("MCMessage", pick(None, "MCMessage3.cfg"))
    plain = [case for case in cases if case["plain"]]

    # a state is printed once for every way to get there
    cases = plain + list({canonical(case): case for case in cases if not case["plain"]}.values())
    random.Random(SEED).shuffle(cases)

    plans = [{"cases": part, "rounds": 2, "largest": 0} for part in shard(cases)]
    large = [{"cases": part, "rounds": 0, "largest": pick(1 << 20, 24 << 20), "huge": pick(40, 160) * 1000000} for part in shard(plain)]

    campaigns = {"all changes": recorded("messages", "TraceMessage", "all", plans), "large": recorded("messages", "TraceMessage", "large", large)}
    return coverage({}, campaigns, {"MCMessage": explored}), ["cryptography is ideal in the specification: forgeries are sampled, not excluded by proof"]


def c15():
    cases, explored = networks("MCWire")
    every = recorded("documents", "TraceWire", "all", [{"cases": part, "count": pick(3, 50) * len(part), "random": False} for part in shard(cases)])
    random_ones = recorded("documents", "TraceWire", "random", [{"cases": cases, "count": pick(12000, 200000), "random": True} for _ in range(CORES)])
    return coverage({}, {"every change": every, "random": random_ones}, {"MCWire": explored}), ["what stands for an optional field, but is no value of it, may be taken for nothing"]


def c19():
    walked, explored = performed("http", "TraceHttp", "MCHttp", longest=60, rounds=pick(1, 20))
    edges, _ = printed("MCHttp", "EDGE")
    kinds = [kind for _, kind in sorted({canonical(edge["op"]["kind"]): edge["op"]["kind"] for edge in edges}.items())]
    free = recorded("http", "TraceHttp", "free", [{"cases": kinds, "count": pick(60, 1500)} for _ in range(CORES)])
    flood = recorded("http", "TraceHttp", "flood", [{"count": pick(2, 40)} for _ in range(CORES)])
    ways, lines = printed("MCAnswers", "CASE")
    answers = recorded("http", "TraceHttp", "answers", [{"cases": ways, "count": pick(15, 400) * len(ways)} for _ in range(CORES)])
    whole = campaign("servers", "TraceServers", "random", pick(64, 2000), {"http": True, "length": 60, "nodes": 2, "seconds": pick(60, 300)})
    stress = campaign("servers", "TraceServers", "stress", pick(64, 2000), {"http": True, "seconds": pick(60, 300)})
    return coverage({}, {"all requests": walked, "many at once": free, "a great many at once": flood, "answers": answers, "servers": whole, "servers at once": stress}, {"MCHttp": explored}), ["loopback sockets", "bodies beyond two megabytes may be refused"]


CHECKS = {
    "C19": (c19, "model_checking"),
    "C15": (c15, "model_checking"),
    "C14": (c14, "model_checking"),
    "C20": (c20, "model_checking")
}
