"""C12, C13: the metered allocator."""
from .core import *
from .runners import Group, run_groups, replay_and_validate, drop_event, repeat_event
import random

INV = ["UsedIsLive", "UsedIsFlow", "CountsOfBlocks", "NeverNegative", "ExtremesEnclose", "OlderIsWider", "ExtremesByDefinition", "Emit"]

def alloc_model(family, depth, sim=None):
    return Model("MCAllocator", {"Family": '"%s"' % family, "Depth": str(depth)}, INV, label="MCAllocator/%s/%d" % (family, depth), workers=4, sim=sim)

def tweak(field, delta):
    def f(t, rng):
        idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "query" and e["ok"]]
        if not idx:
            return None
        k = rng.choice(idx)
        ev = json.loads(json.dumps(t["ev"]))
        if field == "ct":
            ev[k]["ct"][rng.randrange(9)] += delta
        elif field == "ok":
            ev[k]["ok"] = False
        else:
            ev[k][field] += delta
        return dict(t, ev=ev)
    f.__name__ = "wrong_" + field
    return f

def spoiled(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] in ("alloc", "free", "realloc") and e.get("n") != -1]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = json.loads(json.dumps(t["ev"]))
    ev[k]["good"] = False
    return dict(t, ev=ev)

def otherwise_shown(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "query" and e["ok"]]
    if not idx:
        return None
    ev = json.loads(json.dumps(t["ev"]))
    ev[rng.choice(idx)]["text"]["ct"][rng.randrange(9)] += 1
    return dict(t, ev=ev)

def group(models, aspect, controls, limit=10**6):
    return Group("alloc", "AllocatorTrace", models, limit, controls, {"Aspects": '{"%s"}' % aspect}, timeout=300)

def op(o, b=0, n=0, al=0, s=0):
    return {"o": o, "b": b, "n": n, "al": al, "s": s}

def c12(work, stats, binary):
    models = [alloc_model("ops", 5 if THOROUGH else 4), alloc_model("long", 80 if THOROUGH else 40, sim=2000 if THOROUGH else 150), alloc_model("huge", 18, sim=400 if THOROUGH else 60)]
    return run_groups("C12", work, stats, binary, [group(models, "C12", [tweak("ct", 1), tweak("used", 8), spoiled, otherwise_shown], 12000 if not THOROUGH else 10**6)])

def c13(work, stats, binary):
    models = [alloc_model("extremes", 7 if THOROUGH else 5), alloc_model("long", 120 if THOROUGH else 60, sim=3000 if THOROUGH else 400), alloc_model("huge", 18, sim=400 if THOROUGH else 60)]
    v = run_groups("C13", work, stats, binary, [group(models, "C13", [tweak("lo", -1), tweak("hi", 1), tweak("ok", 0)], 12000 if not THOROUGH else 10**6)])
    # around the capacity of the global allocator
    scn = []
    for cap in (16, 1024) if not THOROUGH else (1, 2, 3, 5, 8, 16, 1024):
        for k in (cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 1, 5 * cap):
            scn.append({"kind": "alloc", "capacity": cap, "auto": 2, "id": len(scn),
                        "ops": [op("alloc", n=5000), op("save"), op("alloc", n=700), op("free", b=1), op("save"), op("churn", n=3, s=k - 1), op("alloc", n=100), op("query", s=1), op("query", s=2), op("save"),
                                op("query", s=1), op("query", s=2), op("churn", n=90000, s=2), op("query", s=1), op("query", s=2), op("query", s=3)]})
    # the extreme was reached early, half way or late in a long series of save points -- wherever in the ring they happen to be
    for cap in (16, 1024) if not THOROUGH else (2, 3, 4, 5, 8, 16, 1024):
        for at in sorted({0, 1, cap // 4, cap // 2 - 1, cap // 2, cap // 2 + 1, 3 * cap // 4, cap - 3, cap - 2}):
            for offset in (0, 1, cap // 2, cap - 1):
                rest = cap - 2 - at
                if at < 0 or rest < 0:
                    continue
                start = [op("alloc", n=5000)] + ([op("churn", n=2, s=offset)] if offset else []) + [op("save")] + ([op("churn", n=3, s=at)] if at else [])
                end = ([op("churn", n=4, s=rest)] if rest else []) + [op("query", s=1), op("query", s=2)]
                peak, dip = [op("alloc", n=9000), op("free", b=2), op("save")], [op("free", b=1), op("alloc", n=5000), op("save")]
                for middle in (peak, dip) if not THOROUGH else (peak, dip, peak[:2] + dip[:1] + [op("alloc", n=5000), op("save")]):
                    scn.append({"kind": "alloc", "capacity": cap, "auto": 0, "id": len(scn), "ops": start + middle + end})
    v += replay_and_validate(work, stats, binary, group([], "C13", [tweak("lo", -1), tweak("hi", 1), tweak("ok", 0)]), scn, random.Random(SEED))
    return v
