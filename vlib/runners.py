"""C01, C02, C03, C04, C18: the synchronous and asynchronous runners."""
import random
from .core import *

STD_INV = ["PassesIffLimitsMet", "OnlyTimeExcessesAreRetried", "AttemptsBounded", "VerdictsFromPasses", "UserPanicsFail", "Emit"]
ASY_INV = ["PassesIffLimitsMet", "OnlyTimeExcessesAreRetried", "AttemptsBounded", "UndeclaredNotEnforced", "NothingAtFirst", "DataFlows", "UserPanicsFail", "Emit"]


def std_model(family, live=True, **constants):
    return Model("MCStandard", {"TOL": "10", "Family": '"%s"' % family, **constants}, STD_INV, ["DoneIsFinal"] + (["Ends"] if live else []), label="MCStandard/" + family, workers=2)


def asy_model(family, live=True, **constants):
    return Model("MCAsync", {"TOL": "10", "Deep": "TRUE" if THOROUGH else "FALSE", "Family": '"%s"' % family, **constants}, ASY_INV, ["DoneIsFinal"] + (["Ends"] if live else []), label="MCAsync/" + family, workers=2)


def flip_outcome(t, rng):
    return dict(t, out="panic" if t["out"] == "ok" else "ok")

def drop_event(t, rng):
    if not t["ev"]:
        return None
    k = rng.randrange(len(t["ev"]))
    return dict(t, ev=t["ev"][:k] + t["ev"][k+1:])

def repeat_event(t, rng):
    if not t["ev"]:
        return None
    k = rng.randrange(len(t["ev"]))
    return dict(t, ev=t["ev"][:k+1] + t["ev"][k:])

def wrong_data(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e.get("e") == "begin"]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k] = dict(ev[k], d=ev[k]["d"] + 1)
    return dict(t, ev=ev)


def sample(rng, scenarios, limit):
    """all of them if within the limit; otherwise a random sample in which configurations are as evenly represented as possible"""
    if len(scenarios) <= limit:
        return list(scenarios)
    by_cfg = {}
    for s in rng.sample(scenarios, len(scenarios)):
        by_cfg.setdefault(json.dumps(s.get("cfg"), sort_keys=True), []).append(s)
    strata = rng.sample(sorted(by_cfg.values(), key=lambda g: json.dumps(g[0], sort_keys=True)), len(by_cfg))
    out, depth = [], 0
    while len(out) < limit:
        out += [g[depth] for g in strata if len(g) > depth][:limit - len(out)]
        depth += 1
    return out


def vary_units(s, rng):
    """Scenarios are scale free, as long as nothing grows faster than n^4 (the exponential law depends on the unit):
    what units of time & memory stand for is drawn -- from nanoseconds to hours and from bytes to gigabytes in total"""
    if s.get("kind") in ("sync", "async"):
        if s["cfg"].get("al", -1) >= 0 or s["cfg"].get("cl", -1) >= 0:
            return          # known findings are identified by their whole scenario
        passes = [c["ops"] for c in s["calls"] if c["s"].startswith("pass")]
        slow = max((sum(o["n"] for o in ops if o["o"] == "time") for ops in passes), default=0)
        fat = max((sum(o["n"] for o in ops if o["o"] in ("keep", "tmp")) for ops in passes), default=0)
        total = sum(o["n"] for c in s["calls"] for o in c["ops"] if o["o"] in ("keep", "tmp"))
        if slow <= 16000 and fat <= 16000:
            s["tu"] = rng.choice([1, 1000, 10**6, 10**9, 3600 * 10**9])
            s["mu"] = rng.choice([u for u in (1, 1000, 1 << 20) if total * u <= 8 << 30])
    elif s.get("kind") == "crud":
        styles = [x for k in "CRUD" for x in s["styles"][k]]
        costs = [x[k] for x in styles for k in "tm"]
        if any(c[0] == "boom" or (c[0] in ("flat", "uneven") and c[2] > 16 * c[1]) for c in costs):
            return
        per_call = max((c[2] for x in styles for c in [x["m"]] if c[0] == "flat"), default=0)
        total = 8 * max(s["cfg"]["n"]) * per_call + max((x["tmp"] for x in styles), default=0) * max(s["cfg"]["th"])
        s["tu"] = rng.choice([1000, 10**6, 10**9, 3600 * 10**9])
        s["mu"] = rng.choice([u for u in (4096, 1 << 16, 1 << 20) if u == 4096 or total * u <= 8 << 30])


class Group:
    """scenarios to be replayed in a mode of the harness, and to be validated against a specification"""
    def __init__(self, mode, spec, models, limit, controls, constants=None, timeout=120, env=None, spec_name="TSpec", track="Track"):
        self.spec_name, self.track = spec_name, track
        self.mode, self.spec, self.models, self.limit, self.controls = mode, spec, models, limit, controls
        self.constants = constants
        self.timeout = timeout
        self.env = env
        self.per_scenario = 20
        self.binary = None
        self.note = ""


def run_groups(prop, work, stats, binary, groups):
    """model check -> scenarios -> real code -> traces -> validation. Returns the violations found: [(scenario, trace, prefix, spec)]"""
    rng = random.Random(SEED)
    models, where = [], {}
    for g in groups:
        for m in g.models:
            if (m.spec, m.cfg) not in where:
                where[(m.spec, m.cfg)] = len(models)
                models.append(m)
    emitted = run_models(work, stats, models)
    violations = []
    for g in groups:
        scn = []
        for m in g.models:
            s = emitted[where[(m.spec, m.cfg)]]
            if not s:
                raise ToolError("no scenarios from " + m.label)
            scn += s
        scn = dedupe(scn)
        scn.sort(key=lambda s: json.dumps(s, sort_keys=True))
        scn = [dict(s) for s in sample(rng, scn, g.limit)]
        for i, s in enumerate(scn):
            s["id"] = i
            vary_units(s, rng)
            if prop == "C18":
                s["boom"] = rng.randrange(8)    # what closures panic with
        violations += replay_and_validate(work, stats, g.binary or binary, g, scn, rng)
    return violations


def replay_and_validate(work, stats, binary, g, scn, rng):
    by_id = {s["id"]: s for s in scn}
    traces = run_harness(binary, work, g.mode, scn, timeout=g.timeout, env=g.env, per_scenario=g.per_scenario)
    dead = [t for t in traces.values() if t.get("dead")]
    alive = [t for t in traces.values() if not t.get("dead")]
    # negative controls: corrupted traces that must be rejected, lest the validation proves nothing
    controls = []
    for f in g.controls:
        enough = len(controls) + 4
        for t in rng.sample(alive, min(40, len(alive))):
            c = f(t, rng)
            if c is not None and c != t and len(controls) < enough:
                controls.append((t["id"], f.__name__, c))
    batch = alive + [c for _, _, c in controls]
    rejected = validate(work, stats, g.spec, batch, g.constants, spec_name=g.spec_name, track=g.track)
    stats.traces -= len(controls)
    bad_ids = {batch[i]["id"] for i in rejected if i < len(alive)}
    for k, (base, name, c) in enumerate(controls):
        if base in bad_ids:
            continue
        if len(alive) + k not in rejected:
            if bad_ids or dead:
                continue
            raise ToolError("a corrupted trace (%s) was accepted by %s: %s" % (name, g.spec, json.dumps(c)[:1500]))
        stats.controls += 1
    if alive and len(stats.samples) < 4:
        t = alive[rng.randrange(len(alive))]
        stats.samples.append({"spec": g.spec, "scenario": by_id[t["id"]], "trace": t if len(json.dumps(t)) < 4000 else json.dumps(t)[:4000]})
    out = []
    for t in dead:
        out.append({"spec": g.spec, "mode": g.mode, "scenario": by_id[t["id"]], "trace": t, "matched": 0, "what": g.note + "the code " + ("hanged" if t["out"] == "hang" else "crashed")})
    for i, m in sorted(rejected.items()):
        if i < len(alive):
            t = alive[i]
            out.append({"spec": g.spec, "mode": g.mode, "scenario": by_id[t["id"]], "trace": t, "matched": m,
                        "what": g.note + "the execution is not a behaviour of %s: only its first %d events are" % (g.spec, max(0, m - 1))})
    return out


Q = not THOROUGH
TOLC = {"TOL": "10"}

def std_group(families, limit, live=True):
    return Group("sync", "StandardTrace", [std_model(f, live and f != "noise") for f in families], limit, [flip_outcome, drop_event, repeat_event], TOLC)

def asy_group(families, limit, live=True):
    return Group("async", "AsyncTrace", [asy_model(f, live and f != "noise") for f in families], limit, [flip_outcome, drop_event, repeat_event, wrong_data], TOLC)

def c01(work, stats, binary):
    return run_groups("C01", work, stats, binary, [std_group(["time", "space", "both", "sizes", "many"], 5000 if Q else 100000)])

def c02(work, stats, binary):
    return run_groups("C02", work, stats, binary, [std_group(["noise"], 3000 if Q else 100000), asy_group(["noise"], 3000 if Q else 100000)])

def c03(work, stats, binary):
    return run_groups("C03", work, stats, binary, [asy_group(["stages", "equal", "many"], 5000 if Q else 100000)])

def c04(work, stats, binary):
    return run_groups("C04", work, stats, binary, [asy_group(["aux", "custom"], 10**6), asy_group(["time", "space", "both", "sizes", "many"], 7000 if Q else 100000)])

CRUD_INV = ["PassesIffAllLimitsMet", "FirstExcessEndsTheAttempt", "AttemptsBounded", "SpaceNeverRetried", "SizesSensible", "WarmupsComplete",
            "NothingWarmedOtherwise", "OnlyRequestedRun", "Emit"]

def crud_model(family, live=True, **constants):
    return Model("MCCrud", {"TOL": "10", "Family": '"%s"' % family, **constants}, CRUD_INV, ["DoneIsFinal"] + (["Ends"] if live else []), label="MCCrud/" + family, workers=2)

def dedupe(scn):
    seen, out = set(), []
    for s in scn:
        k = json.dumps({x: y for x, y in s.items() if x != "id"}, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out

def wrong_element(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["o"] != 0]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k] = dict(ev[k], n=ev[k]["n"] + 1000000)
    return dict(t, ev=ev)

def late_event(t, rng):
    """the start of a call before the end of the previous pass"""
    idx = [i for i in range(1, len(t["ev"])) if t["ev"][i]["o"] != t["ev"][i-1]["o"] and t["ev"][i]["o"] != 0]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k-1] = dict(ev[k-1], e=ev[k]["s"] + 1)
    return dict(t, ev=ev)

def wrong_reset(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["o"] == 0]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k] = dict(ev[k], n=ev[k]["n"] + 1)
    return dict(t, ev=ev)

def wrong_measure(t, rng):
    idx = [i for i, a in enumerate(t["an"]) if a["p"] == 1]
    if not idx:
        return None
    an = json.loads(json.dumps(t["an"]))
    m = rng.choice(an[rng.choice(idx)]["m"])
    k = rng.choice("tax")
    m[k] += 100000
    return dict(t, an=an)

def crud_group(families, limit, aspects, controls, live=True):
    return Group("crud", "CrudTrace", [crud_model(f, live and f not in ("retry", "retryspace", "manyretries")) for f in families], limit, controls,
                 {"TOL": "10", "Aspects": "{%s}" % ", ".join('"%s"' % a for a in aspects)}, timeout=300)

CC = [drop_event, repeat_event, wrong_element]

def shifted_run(t, rng):
    if not t["ev"]:
        return None
    k = rng.randrange(len(t["ev"]))
    ev = list(t["ev"])
    ev[k] = dict(ev[k], a=ev[k]["a"] + 1, b=ev[k]["b"] + 1)
    return dict(t, ev=ev)

def moved_border(t, rng):
    """an element goes from a run to the next one"""
    idx = [i for i in range(1, len(t["ev"])) if t["ev"][i-1]["b"] + 1 == t["ev"][i]["a"] and t["ev"][i-1]["o"] == t["ev"][i]["o"] and t["ev"][i-1]["p"] == t["ev"][i]["p"]]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = list(t["ev"])
    ev[k-1], ev[k] = dict(ev[k-1], b=ev[k-1]["b"] + 2), dict(ev[k], a=ev[k]["a"] + 2)
    return dict(t, ev=ev)

def big_passes(work, stats, binary):
    """ranges whose bounds, times the number of threads, are beyond what 16, 24, 31, 32 bits may hold"""
    cfgs = []
    for bits, ths in ((16, (3, 8)), (24, (7, 64)), (31, (500,)), (32, (1000,) if Q else (1000, 3000, 64))):
        for th in ths:
            n = (1 << bits) // th + 1 + th // 2
            cfgs += [([n, 3, 2, n], [th, 2, 1, th])] if bits > 24 else [([n, n + 1, n + 2, n], [th, th + 1, 2, th]), ([n, 0, 0, n + 5], [1, 1, 1, 1])]
    # ... nor floating-point numbers of 32 bits
    cfgs += [([(1 << 24) + 3, 3, 1, (1 << 24) + 5], [3, 2, 1, 5]), ([2, (1 << 24) + 5, (1 << 24) + 7, 1], [2, 8, 3, 1])]
    scn = [{"kind": "bigpass", "id": i, "cfg": {"n": n, "th": th}} for i, (n, th) in enumerate(cfgs)]
    g = Group("bigpass", "BigPassTrace", [], 1000, [shifted_run, moved_border, drop_event], timeout=300)
    g.per_scenario = 60
    return replay_and_validate(work, stats, binary, g, scn, random.Random(SEED))

def c06(work, stats, binary):
    v = run_groups("C06", work, stats, binary, [crud_group(["subsets", "threads"], 1000 if Q else 10**6, ["C06"], CC)])
    return v + big_passes(work, stats, binary)

def c07(work, stats, binary):
    v = run_groups("C07", work, stats, binary, [crud_group(["lifo", "subsets", "threads"], 900 if Q else 10**6, ["C07"], CC + [late_event])])
    return v + big_passes(work, stats, binary)

def c08(work, stats, binary):
    return run_groups("C08", work, stats, binary, [crud_group(["timelimits", "spacelimits"], 1200 if Q else 10**6, [], CC + [flip_outcome]),
                                                   crud_group(["retry", "retryspace"], 1100 if Q else 10**6, [], CC + [flip_outcome]),
                                                   crud_group(["manyretries"], 60 if Q else 10**6, [], CC)])

def wrong_told(t, rng):
    return dict(t, told=t["told"] - 1)
def wrong_sum(t, rng):
    return dict(t, sum2=(t["sum2"] + 2) % 46337)
def fewer_calls(t, rng):
    return dict(t, calls=t["calls"] - 1)

def c09(work, stats, binary):
    v = run_groups("C09", work, stats, binary, [crud_group(["warmup", "retry"], 1200 if Q else 10**6, ["C09"], CC + [wrong_reset])])
    big = [(43_000_000, 100, 8), (2_147_483_647, 3, 7)] + ([] if Q else [(100_000_001, 99, 5), (85_899_346, 50, 8), (42_949_673, 100, 1), (429_496_730, 10, 3)])
    scn = [{"kind": "bigwarm", "id": i, "cfg": {"n": n, "w": w, "th": th}} for i, (n, w, th) in enumerate(big)]
    g = Group("bigwarm", "BigWarmTrace", [], 10, [wrong_told, wrong_sum, fewer_calls], timeout=300)
    g.per_scenario = 60
    return v + replay_and_validate(work, stats, binary, g, scn, random.Random(SEED))

def c18(work, stats, binary):
    return run_groups("C18", work, stats, binary, [std_group(["panic"], 2000 if Q else 10**6), asy_group(["panic"], 3000 if Q else 10**6),
                                                   crud_group(["panic"], 800 if Q else 10**6, ["C07"], [flip_outcome, repeat_event])])

def c20(work, stats, binary):
    return run_groups("C20", work, stats, binary, [crud_group(["measure"], 800 if Q else 10**6, ["C20"], CC + [wrong_measure])])
