"""Checks of the port forwarder (C17) and of addresses (C18)."""

from .client import *


def performed(command, trace_module, module, longest=100, rounds=1, plan=None, config=None):
    """Perform the operations of all transitions of the module, and have TLC judge what came of it."""
    edges, lines = printed(module, "EDGE", config=config)
    graph = Graph(edges)
    rng = random.Random(SEED)
    walks = [[graph.edges[edge]["op"] for edge in walk] for _ in range(rounds) for walk in graph.walks(rng, longest)]
    campaign = recorded(command, trace_module, module, [{**(plan or {}), "cases": part} for part in shard(walks)])
    return campaign, {"states": len(graph.states), "transitions": len(graph.edges)}


def c17():
    walked, explored = performed("ports", "TracePortForward", "MCPortForward", rounds=pick(2, 20))
    histories = recorded("ports", "TracePortForward", "random", [{"count": pick(60, 2000), "length": 60} for _ in range(CORES)])
    return coverage({}, {"all operations": walked, "random": histories}, {"MCPortForward": explored}), ["a stand-in for the gateway, at the interface of easy-upnp"]


def c18():
    cases, explored = networks("MCAddress")
    texts = given("addresses", "TraceAddress", "pieces", cases, pick(1, 10))
    others = recorded("addresses", "TraceAddress", "random", [{"count": pick(2000, 100000)} for _ in range(CORES)])
    return coverage({}, {"pieces": texts, "random": others}, {"MCAddress": explored}), ["searches themselves are decided by C11 and C12"]


CHECKS = {
    "C18": (c18, "model_checking"),
    "C17": (c17, "model_checking")
}
