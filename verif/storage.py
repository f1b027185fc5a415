"""Checks of the storage drivers: messages inbox (C01-C04) and routing table (C05-C07)."""

import random

from .core import *


def name_of(op):
    return op["name"] if "name" in op else op["q"]["op"]


def walks_of(module, command, plan=None, longest=300, extra=None, config=None, keep=None):
    """Flow A: replay all the transitions of the module into the code."""
    edges, lines = printed(module, "EDGE", config=config)
    graph = Graph([edge for edge in edges if keep is None or keep(edge)])
    rng = random.Random(SEED)
    walks = graph.walks(rng, longest)

    if extra:
        walks += graph.random_walks(rng, *extra)

    rng.shuffle(walks)
    steps = [{"op": edge["op"], "to": graph.states[edge["to"]], "from": edge["from"], "state": edge["to"]} for edge in graph.edges]
    results = harness(command, [{**(plan or {}), "edges": steps, "walks": part} for part in shard(walks)])
    failures(results, {"module": module})

    operations = collections.Counter(name_of(edge["op"]) for edge in graph.edges)
    states, transitions = len(graph.states), len(graph.edges)

    return {
        "states": states,
        "transitions": transitions,
        "walks": len(walks),
        "steps": total(results, "steps"),
        "operations": dict(operations),
        "sample": [graph.edges[edge]["op"] for edge in walks[0][:8]]
    }


def campaign(command, trace_module, what, count, plan=None):
    """Flow B: record histories of the code and have TLC judge them."""
    plans = []

    for number in range(CORES):
        share = count // CORES + (1 if number < count % CORES else 0)

        if share:
            plans.append({**(plan or {}), "what": what, "count": share, "shard": number, "out": fresh(f"{what}.ndjson")})

    results = harness(command, plans)
    failures(results, {"campaign": what})
    files = [plan["out"] for plan in plans]
    judged, states, transitions = judge(trace_module, files, {"campaign": what})

    return {
        "histories": judged,
        "events": total(results, "events"),
        "schedules": total(results, "schedules"),
        "states": states,
        "transitions": transitions,
        "sample": sample_history(files[0])
    }


def coverage(walks=None, campaigns=None, models=None, note=None):
    walks, campaigns, models = walks or {}, campaigns or {}, models or {}
    samples = [{name: part.pop("sample")} for group in (walks, campaigns) for name, part in group.items() if "sample" in part]

    parts = [part for group in (walks, campaigns, models) for part in group.values()]

    return {
        "states": sum(part["states"] for part in parts),
        "transitions": sum(part["transitions"] for part in parts),
        "traces_validated_against_impl": sum(part["walks"] for part in walks.values()) + sum(part["histories"] for part in campaigns.values()),
        "samples": samples,
        "spec_to_code": walks,
        "code_to_spec": campaigns,
        "models": models
    }


# What the designs of files rely on.
RELIED_ON = {
    "InboxImpl": ["Locked", "FileFirst", "Replaced", "RemovedLast"],
    "RouterImpl": ["Locked", "Replaced", "Compared"]
}


def design(module):
    """The design of files, checked by itself, and that each thing it relies on is needed."""
    lines = tlc(module, pick(None, f"{module}Thorough.cfg"), workers=CORES)
    states, transitions = numbers(lines)

    for reliance in RELIED_ON[module]:
        # 12 and 13: an invariant or a property is violated
        tlc(module, f"{module}No{reliance}.cfg", workers=1, expected=(12, 13))

    return {module: {"states": states, "transitions": transitions, "refuted without": RELIED_ON[module]}}


def c01():
    walks = walks_of("MCInbox", "inbox-walks")
    random_histories = campaign("inbox", "TraceInbox", "random", pick(240, 4000), {"length": pick(120, 300)})
    long = campaign("inbox", "TraceInbox", "long", pick(8, 32), {"sizes": [40, 66_000, 10_000, 300, 1_100, 2_100, 5_000, 4_500], "big": True})
    return coverage({"MCInbox": walks}, {"random": random_histories, "long": long}), [
        "a storage folder is used by one process at a time",
        "received_at is checked against the wall clock as moved by the harness"
    ]


def c02():
    schedules = campaign("inbox", "TraceInbox", "schedule", pick(160, 3000), {"max": pick(60, 400), "bound": pick(2, 3), "seconds": pick(60, 600)})
    stress = campaign("inbox", "TraceInbox", "stress", pick(240, 6000), {"seconds": pick(60, 300)})
    return coverage({}, {"schedules": schedules, "stress": stress}, design("InboxImpl")), ["operations overlap within one process"]


def c03():
    names = campaign("inbox", "TraceInbox", "names", pick(32, 1200), {"seconds": pick(60, 600)})
    return coverage({}, {"names": names}), ["case-sensitive file system with 255 byte names"]


def c04():
    crashes = campaign("inbox", "TraceInbox", "crash", pick(64, 2000), {"seconds": pick(60, 600)})
    faults = campaign("inbox", "TraceInbox", "fault", pick(80, 2000), {"seconds": pick(60, 600)})
    return coverage({}, {"crashes": crashes, "faults": faults}, design("InboxImpl")), ["process death, not power loss: what was written stays written"]


def c05():
    walks = walks_of("MCRouter", "router-walks")
    random_histories = campaign("router", "TraceRouter", "random", pick(400, 8000), {"length": pick(100, 300)})
    long = campaign("router", "TraceRouter", "long", pick(8, 32), {"sizes": [150, 300, 1200, 520, 1100, 3000, 200, 2100]})
    return coverage({"MCRouter": walks}, {"random": random_histories, "long": long}), ["a storage folder is used by one process at a time"]


def c06():
    schedules = campaign("router", "TraceRouter", "schedule", pick(160, 3000), {"max": pick(60, 400), "bound": pick(2, 3), "seconds": pick(60, 600)})
    stress = campaign("router", "TraceRouter", "stress", pick(240, 6000), {"seconds": pick(60, 300)})
    crashes = campaign("router", "TraceRouter", "crash", pick(80, 2000), {"seconds": pick(60, 600)})
    faults = campaign("router", "TraceRouter", "fault", pick(80, 2000), {"seconds": pick(60, 600)})

    return coverage({}, {"schedules": schedules, "stress": stress, "crashes": crashes, "faults": faults}, design("RouterImpl")), [
        "operations overlap within one process",
        "process death, not power loss: what was written stays written"
    ]


def c07():
    walks = walks_of("MCRouter", "router-walks", config="MCRouterDates.cfg")
    plan = {"remote": True}
    random_histories = campaign("router", "TraceRouter", "random", pick(400, 8000), {**plan, "length": 60})
    schedules = campaign("router", "TraceRouter", "schedule", pick(100, 2000), {**plan, "max": pick(40, 400), "bound": pick(2, 3), "seconds": pick(60, 600)})
    stress = campaign("router", "TraceRouter", "stress", pick(160, 4000), {**plan, "seconds": pick(60, 300)})

    return coverage({"MCRouterDates": walks}, {"random": random_histories, "schedules": schedules, "stress": stress}), [
        "which one of several equally new certificates is kept is left open"
    ]


CHECKS = {
    "C01": (c01, "model_checking"),
    "C02": (c02, "model_checking"),
    "C03": (c03, "model_checking"),
    "C04": (c04, "model_checking"),
    "C05": (c05, "model_checking"),
    "C06": (c06, "model_checking"),
    "C07": (c07, "model_checking")
}
