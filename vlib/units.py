"""C21: presentation of quantities"""
import random
from .core import *
from .runners import Group, replay_and_validate, run_groups

def shows(t):
    return [i for i, e in enumerate(t["ev"]) if e["e"] == "show"]

def change(t, k, **f):
    ev = list(t["ev"])
    ev[k] = dict(ev[k], s=dict(ev[k]["s"], **f))
    return dict(t, ev=ev)

def other_figure(t, rng):
    k = rng.choice(shows(t))
    s = t["ev"][k]["s"]
    return change(t, k, **({"fp": s["fp"] + 2} if s["fl"] and s["fp"] < 10 ** s["fl"] - 2 else {"ip": s["ip"] + 2}))     # (ties may go either way)

def other_unit(t, rng):
    k = rng.choice(shows(t))
    s = t["ev"][k]["s"]
    return change(t, k, suf={"KiB": "MiB", "b": "KiB", "s": "ms", "b/s": "b/min"}.get(s["suf"], s["suf"] + "?"))

def fewer_decimals(t, rng):
    # (durations may end in zeros or not)
    ks = [k for k in shows(t) if t["ev"][k]["s"]["fl"] and t["ev"][k]["s"]["suf"] not in ("s", "ms", "us")]
    if not ks:
        return None
    k = rng.choice(ks)
    s = t["ev"][k]["s"]
    return change(t, k, fl=s["fl"] - 1, fp=s["fp"] // 10)

INV = ["AllRight", "LargestThatFits", "OneTableEach", "Emit"]
CONTROLS = [other_figure, other_unit, fewer_decimals]

def model(family, items, **kw):
    return Model("MCUnits", {"Family": '"%s"' % family, "Deep": "TRUE" if THOROUGH else "FALSE", "MaxItems": str(items)}, INV, label="MCUnits/" + family, **kw)

def c21(work, stats, binary):
    rng = random.Random(SEED)
    singles, = run_models(work, stats, [model("single", 1)])
    # one by one -- and, in the same process, after many others
    ops = sorted((s["ops"] for s in singles), key=lambda o: json.dumps(o, sort_keys=True))
    rng.shuffle(ops)
    scn = []
    for i in range(0, len(ops), 25):
        group = []
        for k, o in enumerate(ops[i:i + 25]):
            group += [o[0], {"o": "show", "h": k + 1}]
        scn.append({"kind": "units", "ops": group, "id": len(scn)})
    g = Group("units", "UnitsTrace", [], 10**9, CONTROLS)
    violations = replay_and_validate(work, stats, binary, g, scn, rng)
    stats.extra["values_presented"] = len(ops)
    groups = [Group("units", "UnitsTrace", [model("mixed", 3 if not THOROUGH else 4)], 10**6, CONTROLS),
              Group("units", "UnitsTrace", [model("long", 150, sim=12 if not THOROUGH else 200)], 10**6, CONTROLS)]
    return violations + run_groups("C21", work, stats, binary, groups)
