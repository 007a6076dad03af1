"""C22, C23: what tests tell, and the build options that say where to."""
import random
from .core import *
from .laws import LawGroup
from .runners import Group, run_groups, std_model, asy_model, crud_model, flip_outcome, drop_event

# ------------------------------------------------------------- negative controls
STREAMS = ("stdout", "stderr")

def spoken(t, rng):
    for s in STREAMS:
        if t[s]:
            return s
    return None

def drop_token(t, rng):
    s = spoken(t, rng)
    if s is None:
        return None
    k = rng.randrange(len(t[s]))
    return dict(t, **{s: t[s][:k] + t[s][k + 1:]}, report=[])

def repeat_token(t, rng):
    s = spoken(t, rng)
    if s is None:
        return None
    k = rng.randrange(len(t[s]))
    return dict(t, **{s: t[s][:k + 1] + t[s][k:]}, report=[])

def other_class(t, rng):
    """the class shown is far from the one that was measured"""
    s = spoken(t, rng)
    if s is None:
        return None
    crud = "th" in t["cfg"]
    if crud and (t["cfg"]["max"] > 1 or min(t["cfg"]["n"]) < 2):
        return None     # single elements have no law to follow
    # memory of CRUD operations is only known to be within an interval
    ks = [k for k, x in enumerate(t[s]) if x.startswith("time:") or (x.startswith("space:") and not crud)]
    if not ks:
        return None
    k = rng.choice(ks)
    kind, c = t[s][k].split(":")
    return dict(t, **{s: t[s][:k] + ["%s:%d" % (kind, 16 if int(c) < 8 else 0)] + t[s][k + 1:]}, report=[])

def other_stream(t, rng):
    s = spoken(t, rng)
    if s is None:
        return None
    o = [x for x in STREAMS if x != s][0]
    return dict(t, **{s: [], o: t[s]}, bytes={s: 0, o: t["bytes"][s]})

def stray_text(t, rng):
    for s in STREAMS:
        if not t[s]:
            return dict(t, bytes=dict(t["bytes"], **{s: 1}))
    return None

def with_message(t, **kw):
    return dict(t, msg=dict(t["msg"], **kw))

def other_count(t, rng):
    return with_message(t, n=t["msg"]["n"] + 1) if t["msg"]["k"] in ("gave up", "stopped") else None

def other_excess(t, rng):
    last = t["msg"]["last"]
    if not last:
        return None
    words = last.split(" ")
    k = rng.randrange(4)
    words[k] = {"TIME": "SPACE", "SPACE": "TIME"}[words[k]] if k == 0 else words[k] + "x" if k == 1 else str((int(words[k]) + 5) % 17)
    return with_message(t, last=" ".join(words))

def other_history(t, rng):
    prev = t["msg"]["prev"]
    if not prev:
        return None
    k = rng.randrange(len(prev))
    if rng.random() < 0.5:
        return with_message(t, prev=prev[:k] + prev[k + 1:])
    return with_message(t, prev=prev[:k] + [[prev[k][0], prev[k][1] + 1]] + prev[k + 1:])

def no_message(t, rng):
    return with_message(t, k="none", n=0, last="", prev=[]) if t["msg"]["k"] != "none" else None

def memory_seen(t, rng):
    return dict(t, mem=1) if t["mem"] == 0 else None

TOLD = [drop_token, repeat_token, other_class, other_count, other_excess, other_history, no_message]

# ------------------------------------------------------------- builds
class Build:
    def __init__(self, features, sink, tol, metered=True, asy=True):
        self.features, self.sink, self.tol, self.metered, self.asy = features, sink, tol, metered, asy
    def model_constants(self, kind):
        c = {"TOL": str(self.tol)}
        if not self.metered:
            c.update({"SpaceClasses": "<- UnmeteredSpaceClasses"} if kind == "crud" else {"PeakOf": "<- UnmeteredPeakOf"})
        return c
    def constants(self, kind):
        c = self.model_constants(kind)
        c.update({"Sink": '"%s"' % self.sink, "Metered": "TRUE" if self.metered else "FALSE"})
        if kind == "crud":
            c["Aspects"] = "{}"
        return c

SPECS = {"std": ("StandardTale", std_model), "asy": ("AsyncTale", asy_model), "crud": ("CrudTale", crud_model)}

def group(build, kind, families, limit, controls):
    spec, model = SPECS[kind]
    if build.sink == "none":
        controls = [c for c in controls if c not in (drop_token, repeat_token, other_class, other_stream)]
    models = [model(f, False, **build.model_constants(kind)) for f in families]
    return Group("tale", spec, models, limit, controls, build.constants(kind), timeout=300, spec_name="TSpecTale", track="TrackTale")

def groups(build, limit, controls, families):
    return [group(build, kind, families[kind], limit if kind != "crud" else limit // 2, controls) for kind in families if build.asy or kind != "asy"]

Q = not THOROUGH
DEFAULT = Build(["tol10", "out", "asy"], "stdout", 10)

def c23(work, stats, binary):
    return run_groups("C23", work, stats, binary, groups(DEFAULT, 1000 if Q else 10**6, TOLD,
        {"std": ["time", "space", "both", "panic", "lost"], "asy": ["stages", "time", "space", "both", "panic", "lost"],
         "crud": ["retry", "retryspace", "timelimits", "spacelimits", "warmup", "subsets", "panic"]})
        # long stories
        + groups(DEFAULT, 60 if Q else 10**6, TOLD, {"std": ["many"], "asy": ["many"], "crud": ["manyretries"]}))

BUILDS = [
    DEFAULT,
    Build(["tol25", "err", "asy"], "stderr", 25),
    Build(["tol10", "out", "unmetered"], "stdout", 10, metered=False, asy=False),
    # when options conflict, the ones other than the defaults are meant
    Build(["tol10", "tol25", "out", "err", "quiet", "asy"], "none", 25),
    Build(["out", "err", "asy"], "stderr", 10),
] + ([] if Q else [
    Build(["asy"], "none", 10),
    Build(["tol10", "tol25", "out"], "stdout", 25, asy=False),
    Build(["tol10", "out", "quiet", "asy"], "none", 10),
    Build(["tol25", "err", "unmetered", "asy"], "stderr", 25, metered=False),
    Build(["tol10", "out", "err", "quiet", "unmetered"], "none", 10, metered=False, asy=False),
])
CHANNELS = [drop_token, repeat_token, other_class, other_stream, stray_text]

def c22(work, stats, binary):
    all_groups, violations = [], []
    for b in BUILDS:
        try:
            path = build_harness(b.features)
        except ToolError as e:
            # the default build did
            violations.append({"spec": "StandardTale", "scenario": {"kind": "build", "features": list(b.features)}, "trace": str(e), "matched": 0,
                               "what": "doesn't compile with " + ",".join(b.features)})
            continue
        for g in groups(b, 240 if Q else 10**6, CHANNELS + ([] if b.metered else [memory_seen]),
                        {"std": ["time", "both"], "asy": ["time", "both"], "crud": ["timelimits", "spacelimits", "warmup", "retry"]}):
            g.binary, g.note = path, "built with %s: " % ",".join(b.features)
            all_groups.append(g)
        # the laws themselves, on both sides of the tolerance
        g = LawGroup(["regular", "resizing"], b.tol, 150 if Q else 10**6)
        g.binary, g.note = path, "built with %s: " % ",".join(b.features)
        all_groups.append(g)
    return violations + run_groups("C22", work, stats, binary, all_groups)
