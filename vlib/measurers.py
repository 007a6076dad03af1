"""C05: custom measurers"""
from .core import *
from .runners import Group, run_groups, drop_event, repeat_event, flip_outcome

def other_value(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "ab"]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k] = dict(ev[k], v=ev[k]["v"] + 1)
    return dict(t, ev=ev)

def swapped_results(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "re" and len(e["r"]) > 1]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k] = dict(ev[k], r=ev[k]["r"][::-1])
    return dict(t, ev=ev)

def c05(work, stats, binary):
    deep = ("6", "7") if THOROUGH else ("4", "5")
    m = Model("MCMeasurers", {"MaxM": deep[0], "MaxRounds": deep[1]}, ["OneAtATime", "NestsBefore", "ConsumedOnce", "OneResultEach", "Emit"], label="MCMeasurers")
    many = Model("MCMeasurers", {"MaxM": "16" if THOROUGH else "12", "MaxRounds": "2"}, ["OneAtATime", "NestsBefore", "ConsumedOnce", "OneResultEach", "Emit"], label="MCMeasurers-many")
    return run_groups("C05", work, stats, binary, [Group("measurers", "MeasurersTrace", [m, many], 10**6, [drop_event, repeat_event, flip_outcome, other_value, swapped_results])])
