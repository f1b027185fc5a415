"""Checks of clients and of traversals: what is made of the answers of others (C11-C13)."""

from .storage import *


def networks(module, config=None):
    cases, lines = printed(module, "CASE", config=config)
    states, transitions = numbers(lines)
    return cases, {"states": states, "transitions": transitions, "networks": len(cases)}


def recorded(command, trace_module, what, plans):
    """Have the plans recorded, and judged by TLC."""
    plans = [{"what": what, "shard": number, "out": fresh(f"{what}.ndjson"), **plan} for number, plan in enumerate(plans)]
    results = harness(command, plans)
    failures(results, {"campaign": what})
    files = [plan["out"] for plan in plans]
    judged, states, transitions = judge(trace_module, files, {"campaign": what})

    return {
        "histories": judged,
        "events": total(results, "events"),
        "states": states,
        "transitions": transitions,
        "sample": sample_history(files[0])
    }


def given(command, trace_module, what, cases, rounds):
    """All the given networks, concretised anew in each round."""
    return recorded(command, trace_module, what, [{"cases": part, "count": rounds * len(part)} for part in shard(cases)])


def random_ones(command, trace_module, count):
    return recorded(command, trace_module, "random", [{"count": count // CORES} for _ in range(CORES)])


def c11():
    cases, explored = networks("MCLookup")
    campaigns = {"all networks": given("lookups", "TraceLookup", "all", cases, pick(1, 5))}
    models = {"MCLookup": explored}

    if THOROUGH:
        cases, models["MCLookup4"] = networks("MCLookup", "MCLookup4.cfg")
        campaigns["all larger networks"] = given("lookups", "TraceLookup", "larger", cases, 1)

    campaigns["random"] = random_ones("lookups", "TraceLookup", pick(1600, 40000))
    return coverage({}, campaigns, models), ["the order in which servers that are known are asked is left open"]


def c12():
    rounds = {f"MCSession {number}": walks_of("MCSession", "sessions", {"seed": SEED * 1000 + number}, extra=pick((40, 300), (200, 1000))) for number in range(pick(2, 10))}
    return coverage(rounds), ["signatures are ideal in the specification: forgeries are sampled, not excluded by proof"]


def c13():
    campaigns, models = {}, {}

    for config in ("MCTraversalDistinct", "MCTraversalMoved", "MCTraversalShared"):
        cases, models[config] = networks("MCTraversal", config + ".cfg")

        # the table has room for one record of a key
        cases = [case for case in cases if len({case["net"]["key"][r - 1] for r in case["before"]}) == len(case["before"])]
        campaigns[config] = given("traversals", "TraceTraversal", config, cases, pick(1, 5))

    campaigns["random"] = random_ones("traversals", "TraceTraversal", pick(800, 20000))
    return coverage({}, campaigns, models), ["a server that moves may be kept with either of its addresses"]


CHECKS = {
    "C11": (c11, "model_checking"),
    "C12": (c12, "model_checking"),
    "C13": (c13, "model_checking")
}
