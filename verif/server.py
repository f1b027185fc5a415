"""Checks of servers behind their routes (C08-C10)."""

from .storage import *


def walks(config, keep=None):
    return walks_of("MCServer", "server-walks", {"self": 3}, config=config, keep=keep)


def accepted(edge):
    return edge["op"]["res"]["ok"]


def histories(what, count, **plan):
    return campaign("servers", "TraceServers", what, count, {"seconds": pick(60, 300), **plan})


def crowds():
    return histories("crowd", pick(8, 32), sizes=[20, 60, 110, 150, 270, 520, 800, 1100])


def c08():
    return coverage({"MCServerRoutes": walks("MCServerRoutes.cfg")}, {
        "random": histories("random", pick(640, 12000), length=60, nodes=2),
        "faults": histories("fault", pick(120, 3000))
    }), ["signatures are ideal in the specification: forgeries are sampled, not excluded by proof"]


def c09():
    return coverage({
        "MCServerMessages": walks("MCServerMessages.cfg"),
        "MCServerRoutes": walks("MCServerRoutes.cfg", lambda edge: accepted(edge) and edge["op"]["q"]["op"] not in ("lookup", "clients", "servers", "info"))
    }, {
        "random": histories("random", pick(640, 12000), length=60, focus="names"),
        "stress": histories("stress", pick(320, 8000)),
        "crowds": crowds(),
        "crashes": histories("crash", pick(80, 2000))
    }), ["the proof of a request covers its seed only, so that whoever sees one can send another body with it"]


def c10():
    return coverage({"MCServerRoutes": walks("MCServerRoutes.cfg", accepted)}, {
        "random": histories("random", pick(640, 12000), length=60, focus="lookups"),
        "schedules": histories("schedule", pick(80, 2000), max=pick(30, 200)),
        "stress": histories("stress", pick(320, 8000)),
        "faults": histories("fault", pick(100, 2000), focus="lookups"),
        "crowds": crowds()
    }), ["listings are empty when the storage fails, since their answers have no way to say so"]


CHECKS = {
    "C08": (c08, "model_checking"),
    "C09": (c09, "model_checking"),
    "C10": (c10, "model_checking")
}
