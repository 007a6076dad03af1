"""C10, C11: the growth laws."""
from .core import *
from .runners import Group, run_groups, replay_and_validate, std_group, asy_group, dedupe, sample
import random

def law_model(family, tol):
    return Model("MCClassifier", {"TOL": str(tol), "Family": '"%s"' % family, "Deep": "TRUE" if THOROUGH else "FALSE"}, ["Total", "EqualIsO1", "Monotonic", "Emit"],
                 label="MCClassifier/%s/%d%%" % (family, tol), workers=2)

def other_class(t, rng):
    """one step away in some entry point, at some point that isn't by a border"""
    r = [list(x) for x in t["r"]]
    k = rng.randrange(len(r))
    j = rng.randrange(len(r[k]))
    r[k][j] = 16 if r[k][j] < 6 else 0
    return dict(t, r=r)

def lost_as_improvement(t, rng):
    return dict(t, lost=[1] + t["lost"][1:])

class LawGroup(Group):
    def __init__(self, families, tol, limit=10**6):
        super().__init__("laws", "ClassifierTrace", [law_model(f, tol) for f in families], limit, [other_class, lost_as_improvement], {"TOL": str(tol)})

def law_check(prop, work, stats, binary, families):
    v = run_groups(prop, work, stats, binary, [LawGroup(families, 10)])
    # the tolerance is a compile time option
    binary25 = build_harness(["tol25", "out", "asy"])
    v += run_groups(prop, work, stats, binary25, [LawGroup(families, 25)])
    return v

def c10(work, stats, binary):
    return law_check("C10", work, stats, binary, ["regular", "shrink"])

def c11(work, stats, binary):
    v = law_check("C11", work, stats, binary, ["resizing", "resizingshrink"])
    return v + run_groups("C11", work, stats, binary, [std_group(["lost"], 1000 if not THOROUGH else 10**6), asy_group(["lost"], 1000 if not THOROUGH else 10**6)])
