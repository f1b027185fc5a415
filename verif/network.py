"""Checks of servers and clients together (C16)."""

from .ports import *

# as in MCNetwork
NETS = {
    "Moving": {"net": {"host": [1, 2], "key": [3, 4], "who": [1, 2], "ty": [1, 2]}, "keys": 6},
    "Links": {"net": {"host": [1, 2, 3, 0], "key": [3, 4, 5], "who": [1, 2], "ty": [1, 2]}, "keys": 6},
    "Devices": {"net": {"host": [1, 2], "key": [3, 4], "who": [1, 2, 2], "ty": [1, 1, 2]}, "keys": 6}
}


def c16():
    campaigns, models = {}, {}

    for name, net in NETS.items():
        module = "MCNetwork"
        campaigns[name], models[module + name] = performed("network", "TraceNetwork", module, plan={"way": "walks", **net}, rounds=pick(1, 4), config=f"{module}{name}.cfg")

    def histories(what, way, count, **plan):
        campaigns[what] = recorded("network", "TraceNetwork", what.replace(" ", "-"), [{"way": way, "count": count, "seconds": pick(60, 300), **plan} for _ in range(CORES)])

    histories("random", "random", pick(100, 2000))
    histories("random over HTTP", "random", pick(15, 300), http=True, length=30)
    histories("stress", "stress", pick(60, 600))
    histories("stress over HTTP", "stress", pick(10, 200), http=True)
    histories("schedules", "schedule", pick(8, 200), max=pick(25, 200))
    return coverage({}, campaigns, models), ["signatures are ideal in the specification: forgeries are sampled, not excluded by proof"]


CHECKS = {
    "C16": (c16, "model_checking")
}
