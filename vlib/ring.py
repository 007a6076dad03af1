"""C14 - C17: concurrent structures, under a scheduler that goes through their interleavings"""
import itertools, random
from concurrent.futures import ThreadPoolExecutor
from .core import *
from .runners import dedupe, sample

CORES = 8


def run_parallel(binary, work, mode, scenarios, timeout, per_scenario):
    """the harness takes over the scheduling of its whole process: the parallelism comes from many of them"""
    parts = [scenarios[i::CORES] for i in range(CORES)]
    out = {}
    with ThreadPoolExecutor(CORES) as pool:
        for r in pool.map(lambda p: run_harness(binary, work, mode, p, timeout=timeout, per_scenario=per_scenario) if p else {}, parts):
            out.update(r)
    return out


def explore(prop, work, stats, binary, mode, spec, constants, models, settings, limit, controls, cap, timeout=600, always=0):
    """programs out of the models -> histories of the code, under many schedules -> validation
    settings: function of the generated program giving the exploration to be done; cap: histories to be validated"""
    rng = random.Random(SEED)
    programs = []
    for m, emitted in zip(models, run_models(work, stats, models)):
        if not emitted:
            raise ToolError("no scenarios from " + m.label)
        emitted = dedupe(emitted)
        emitted.sort(key=lambda s: json.dumps(s, sort_keys=True))
        # the smallest ones are the most thoroughly explored: none of them is left out
        small = [p for p in emitted if always and sum(map(len, p["threads"])) <= always]
        programs += small + sample(rng, [p for p in emitted if not always or sum(map(len, p["threads"])) > always], limit)
    for i, p in enumerate(programs):
        p.update(settings(p))
        p["id"] = i
    rng.shuffle(programs)
    by_id = {p["id"]: p for p in programs}
    recorded = run_parallel(binary, work, mode, programs, timeout, 60)
    dead = [t for t in recorded.values() if t.get("dead")]
    alive = sorted((t for t in recorded.values() if not t.get("dead")), key=lambda t: t["id"])
    stats.extra["schedules_executed"] = stats.extra.get("schedules_executed", 0) + sum(t["executions"] for t in alive)
    histories = [[dict({k: x for k, x in t.items() if k not in ("histories", "executions", "complete", "out")}, ev=h) for h in t["histories"]] for t in alive]
    stats.extra["distinct_histories"] = stats.extra.get("distinct_histories", 0) + sum(map(len, histories))
    stats.extra["programs"] = stats.extra.get("programs", 0) + len(alive)
    total = sum(map(len, histories))
    if total > cap:
        # a fair share for each program
        per = cap // max(1, len(histories)) + 1
        histories = [rng.sample(h, min(per, len(h))) for h in histories]
    traces = [t for h in histories for t in h]
    bad = []
    for f in controls:
        enough = len(bad) + 6
        for t in rng.sample(traces, min(120, len(traces))):
            c = f(t, rng)
            if c is not None and c != t and len(bad) < enough:
                bad.append((t, f.__name__, c))
    batch = traces + [c for _, _, c in bad]
    rejected = validate(work, stats, spec, batch, constants, timeout=timeout)
    stats.traces -= len(bad)
    wrong = {id(batch[i]) for i in rejected if i < len(traces)}
    kinds = {}
    for k, (base, name, c) in enumerate(bad):
        if id(base) not in wrong:
            kinds.setdefault(name, []).append((len(traces) + k in rejected, c))
    for name, outcomes in kinds.items():
        # what happens simultaneously may justify, now and then, what was corrupted
        stats.controls += sum(r for r, _ in outcomes)
        if 2 * sum(r for r, _ in outcomes) < len(outcomes) and not wrong and not dead:
            raise ToolError("corrupted histories (%s) were accepted by %s: %s" % (name, spec, json.dumps([c for r, c in outcomes if not r][0])[:2500]))
    if traces and len(stats.samples) < 4:
        t = rng.choice(traces)
        stats.samples.append({"spec": spec, "scenario": by_id[t["id"]], "trace": t if len(json.dumps(t)) < 4000 else json.dumps(t)[:4000]})
    out = [{"spec": spec, "mode": mode, "scenario": by_id[t["id"]], "trace": t, "matched": 0, "what": "the code " + ("hanged" if t["out"] == "hang" else "crashed or its threads waited for each other forever")}
           for t in dead]
    for i, m in sorted(rejected.items()):
        if i < len(traces):
            out.append({"spec": spec, "mode": mode, "scenario": by_id[traces[i]["id"]], "trace": traces[i], "matched": m,
                        "what": "the history is not one of %s: only its first %d events are" % (spec, max(0, m - 1))})
    return out


# ------------------------------------------------------------------ controls
def _change(t, rng, want, change):
    idx = [i for i, e in enumerate(t["ev"]) if want(e)]
    if not idx:
        return None
    k = rng.choice(idx)
    ev = [dict(e) for e in t["ev"]]
    change(ev[k])
    return dict(t, ev=ev)

def other_element(t, rng):
    return _change(t, rng, lambda e: e["e"] == "ret" and e["vs"], lambda e: e.update(vs=[90] + e["vs"][1:]))

def nothing_there(t, rng):
    return _change(t, rng, lambda e: e["e"] == "ret" and e["t"] == 0 and e["o"] == "peek" and e["vs"], lambda e: e.update(vs=[]))

def panicked(t, rng):
    return _change(t, rng, lambda e: e["e"] == "ret", lambda e: e.update(r="panic") if "r" in e else e.update(e="panic"))

def overlooked(t, rng):
    """the last answer, that the consumer is dead, becomes another"""
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "ret"]
    if not idx or t["ev"][idx[-1]]["r"] != "err":
        return None
    ev = [dict(e) for e in t["ev"]]
    ev[idx[-1]].update(r="none" if ev[idx[-1]]["o"] == "deq" else "ok")
    return dict(t, ev=ev)

def out_of_the_blue(t, rng):
    """the first answer becomes an error"""
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "ret" and e["o"] in ("deq", "peek")]
    if not idx or t["ev"][idx[0]]["r"] == "err" or sum(1 for e in t["ev"][:idx[0]] if e["e"] == "call" and e["o"] == "enq") > t["n"]:
        return None
    ev = [dict(e) for e in t["ev"]]
    ev[idx[0]].update(r="err", vs=[])
    return dict(t, ev=ev)


# -------------------------------------------------------------------- checks
RING_INV = ["Conforms", "TailsOrdered", "PublishedInPlace", "WritesExclusive", "NoDeadlock", "Emit"]

def ring_model(family, explored):
    return Model("MCRing", {"Family": '"%s"' % family, "MaxExplored": str(explored)}, RING_INV, label="MCRing/%s/%d" % (family, explored), workers=4, heap="6g", timeout=3000)

def sequences(ns, depth, consumers, sim=None, bursts=2):
    return Model("MCRingSeq", {"Ns": ns, "Depth": str(depth), "Consumers": str(consumers), "Bursts": str(bursts) if sim else "1"}, ["Determined", "Emit"],
                 label="MCRingSeq/%s/%d" % (ns, depth), workers=4, sim=sim)

def one_schedule(p):
    return {"preemptions": 0, "max": 1}

def schedules(deep=0):
    def f(p):
        size = sum(map(len, p["threads"]))
        if THOROUGH:
            return {"deep": deep, "preemptions": 4, "max": 60000, "budget": 12000, "spurious": 1, "random": 3000, "histories": 2500, "seed": SEED, "patience": 10**6}
        if deep:
            return {"deep": deep, "preemptions": 2 if size <= 5 else 1, "max": 6000, "budget": 1500, "spurious": 1 if size <= 3 else 0, "random": 300, "histories": 150, "seed": SEED}
        return {"preemptions": 3 if size <= 4 else 2, "max": 25000, "budget": 5000, "spurious": 1 if size <= 3 else 0, "random": 300, "histories": 1500, "seed": SEED}
    return f

# the counters of rings are about to go through these
LANDMARKS = [2**8, 2**16, 2**31, 2**32, 2**53]

def anywhere(settings, every=3):
    """some of the programs run on rings that have been in use for long"""
    counter = itertools.count()
    def f(p):
        k = next(counter)
        return dict(settings(p), near=0 if k % every else LANDMARKS[k // every % len(LANDMARKS)])
    return f

def ring(prop, aspect, controls, families, explored, work, stats, binary):
    constants = {"Aspect": '"%s"' % aspect}
    seq = [sequences("{1, 2, 3}", 8 if THOROUGH else 7, 1), sequences("{1, 2, 3, 4, 5, 8}", 100 if THOROUGH else 50, 3, sim=1000 if THOROUGH else 40),
           sequences("{1, 2, 3}", 450, 2, sim=50 if THOROUGH else 6, bursts=3)]
    v = explore(prop, work, stats, binary, "ring", "RingTrace", constants, seq, anywhere(one_schedule), 4000 if not THOROUGH else 10**6, controls, 10**6)
    v += explore(prop, work, stats, binary, "ring", "RingTrace", constants, [ring_model(f, explored) for f in families], anywhere(schedules(), 5), 10**6 if THOROUGH else 100, controls, 10**6 if THOROUGH else 100000, timeout=3000, always=4)
    return v

def c15(work, stats, binary):
    return ring("C15", "delivery", [other_element, nothing_there, panicked], ["delivery"], 4 if THOROUGH else 3, work, stats, binary)

def c16(work, stats, binary):
    return ring("C16", "overflow", [overlooked, out_of_the_blue, panicked], ["overflow"], 4 if THOROUGH else 3, work, stats, binary)

def never_written(t, rng):
    """an element that was read (or released) is one whose writing isn't there"""
    ids = [e["id"] for e in t["ev"] if e["e"] in ("read", "drop")]
    if not ids:
        return None
    v = rng.choice(ids)
    return dict(t, ev=[e for e in t["ev"] if not (e["e"] == "write" and e["id"] == v)])

def garbage(t, rng):
    return _change(t, rng, lambda e: e["e"] in ("read", "drop"), lambda e: e.update(id=-1))

def relaxed(t, rng):
    """no orderings"""
    threads = {e["t"] for e in t["ev"] if e["e"] == "write" and e["t"] != 0}
    writer = {e["id"]: e["t"] for e in t["ev"] if e["e"] == "write"}
    joined = [e["e"] for e in t["ev"]].index("join")
    if not any(e["e"] in ("read", "drop") and writer.get(e["id"]) in threads - {e["t"]} for e in t["ev"][:joined]):
        return None
    return dict(t, ev=[dict(e, acq=False) if e["e"] == "atomic" else e for e in t["ev"]])

def released_twice(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "drop"]
    if not idx:
        return None
    k = rng.choice(idx)
    return dict(t, ev=t["ev"][:k+1] + t["ev"][k:])

def leaked(t, rng):
    idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "drop"]
    if not idx:
        return None
    k = rng.choice(idx)
    return dict(t, ev=t["ev"][:k] + t["ev"][k+1:])

def c17(work, stats, binary):
    explored = 4 if THOROUGH else 3
    model = Model("RingMemory", {"Family": '"memory"', "MaxExplored": str(explored)}, RING_INV + ["NoRaces", "ReleasedOnce"], spec_name="MSpec",
                  label="RingMemory/%d" % explored, workers=7, heap="8g", timeout=3000)
    controls = [never_written, garbage, relaxed, released_twice, leaked]
    seq = [sequences("{1, 2, 3}", 7 if THOROUGH else 6, 1), sequences("{1, 2, 3, 4, 5, 8}", 100 if THOROUGH else 40, 2, sim=1000 if THOROUGH else 20),
           sequences("{1, 2, 3}", 450, 1, sim=50 if THOROUGH else 6, bursts=3)]
    v = explore("C17", work, stats, binary, "ring", "HappensBefore", None, seq, lambda p: dict(one_schedule(p), deep=1), 1500 if not THOROUGH else 10**6, [c for c in controls if c is not relaxed], 10**6)
    v += explore("C17", work, stats, binary, "ring", "HappensBefore", None, [model], schedules(1), 10**6, controls, 10**6 if THOROUGH else 14000, timeout=3000)
    return v


# ------------------------------------------------------ C14: the allocator
RACE_INV = ["Conforms", "UsedIsFlow", "NothingLost", "Emit"]

def wrong(field, delta):
    def f(t, rng):
        """of the final query -- nothing else is going on by then"""
        idx = [i for i, e in enumerate(t["ev"]) if e["e"] == "ret" and e["ct"]]
        if not idx:
            return None
        ev = json.loads(json.dumps(t["ev"]))
        if field == "ct":
            ev[idx[-1]]["ct"][rng.randrange(9)] += delta
        else:
            ev[idx[-1]][field] += delta
        return dict(t, ev=ev)
    f.__name__ = "wrong_" + field
    return f

def extremes_missed(t, rng):
    """in the exact query at the end: the peak wasn't noticed"""
    k = [i for i, e in enumerate(t["ev"]) if e["e"] == "call" and e["o"] == "query" and e["s"] == 5][0]
    ev = json.loads(json.dumps(t["ev"]))
    ev[k + 1]["hi"] = ev[k + 1]["used"]
    return dict(t, ev=ev)

def c14(work, stats, binary):
    const = lambda e, th, ops: {"MaxExplored": str(e), "MaxThreads": str(th), "MaxOps": str(ops)}
    models = [Model("MCAllocRace", const(3, 2, 6 if THOROUGH else 5), RACE_INV, label="MCAllocRace/3/2", workers=7, heap="8g", timeout=3000)]
    if THOROUGH:
        models += [Model("MCAllocRace", const(3, 3, 5), RACE_INV, label="MCAllocRace/3/3", workers=4, heap="8g", timeout=3000),
                   Model("MCAllocRace", const(4, 2, 5), RACE_INV, label="MCAllocRace/4/2", workers=4, heap="12g", timeout=6000)]
    counter = itertools.count()
    controls = [wrong("ct", 1), wrong("used", 1), wrong("lo", -1), wrong("hi", 1), extremes_missed, panicked]
    def settings(p):
        size = sum(map(len, p["threads"]))
        blind = next(counter) % 8 == 0      # judged just by the answers
        if THOROUGH:
            return {"blackbox": int(blind), "preemptions": 3, "max": 60000, "budget": 12000, "spurious": 1, "random": 3000, "histories": 2500, "seed": SEED, "patience": 10**6}
        return {"blackbox": int(blind), "preemptions": 2 if size <= 4 else 1, "max": 4000, "budget": 1500, "spurious": 1 if size <= 3 else 0, "random": 300, "histories": 150, "seed": SEED}
    return explore("C14", work, stats, binary, "race", "AllocRaceTrace", None, models, settings, 10**6 if THOROUGH else 220, controls, 10**6 if THOROUGH else 40000, timeout=3000)
