"""C19: reports"""
import random
from .core import *
from .runners import Group, run_groups

def at(t, rng, *kinds):
    ks = [k for k, e in enumerate(t["ev"]) if e["e"] in kinds]
    return rng.choice(ks) if ks else None

def put(t, k, e):
    ev = list(t["ev"])
    ev[k] = e
    return dict(t, ev=ev)

def other_figure(t, rng):
    k = at(t, rng, "row")
    if k is None:
        return None
    e = t["ev"][k]
    i = rng.randrange(len(e["t"]))
    f = e["t"][i]
    return put(t, k, dict(e, t=e["t"][:i] + [dict(f, ip=f["ip"] + 2)] + e["t"][i + 1:]))

def other_sign(t, rng):
    k = at(t, rng, "row")
    if k is None:
        return None
    e = t["ev"][k]
    f = e["t"][1]
    return put(t, k, dict(e, t=[e["t"][0], dict(f, sign="-" if f["sign"] != "-" else "+")] + e["t"][2:]))

def other_class(t, rng):
    k = at(t, rng, "time", "space")
    if k is None:
        return None
    e = t["ev"][k]
    return put(t, k, dict(e, c="O(n.log(n))" if e["c"] != "O(n.log(n))" else "O(n)"))

def other_total(t, rng):
    k = at(t, rng, "space")
    if k is None:
        return None
    e = t["ev"][k]
    w = rng.choice(["net", "aux"])
    return put(t, k, dict(e, **{w: dict(e[w], ip=e[w]["ip"] + 1)}))

def drop_line(t, rng):
    k = at(t, rng, "title", "row", "time", "space", "mid")
    return None if k is None else dict(t, ev=t["ev"][:k] + t["ev"][k + 1:])

def repeat_line(t, rng):
    k = at(t, rng, "title", "row", "time", "space", "mid")
    return None if k is None else dict(t, ev=t["ev"][:k] + [t["ev"][k]] + t["ev"][k:])

CONTROLS = [drop_line, repeat_line, other_figure, other_sign, other_class, other_total]

def model(family):
    return Model("MCReport", {"Family": '"%s"' % family, "Deep": "TRUE" if THOROUGH else "FALSE"}, ["DistinctDescriptions", "Emit"], ["Reported"] if family != "crud" else [], label="MCReport/" + family, workers=2)

def c19(work, stats, binary):
    return run_groups("C19", work, stats, binary, [Group("report", "ReportTrace", [model(f) for f in ("classes", "figures", "many", "lost", "runs", "crud")], 10**6, CONTROLS)])
