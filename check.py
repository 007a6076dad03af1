#!/usr/bin/env python3
"""Decides one property of /repo's working tree: check.py <property id>
exit 0: held on everything explored; 1: violated (with a VIOLATION line); 2: the check couldn't do its job"""
import sys, time, traceback, hashlib
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from vlib.core import *
from vlib import registry


def signature(v):
    """identifies the specific scenario that fails"""
    s = {k: x for k, x in (v.get("scenario") or {}).items() if k != "id"}
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_harness()
        return 0
    fn, features, assumptions, _ = registry.CHECKS[prop]
    t0 = time.time()
    work, stats = Work(), Stats()
    try:
        binary = build_harness()
        if binary.endswith("-unhooked") and prop in registry.HOOKED:
            raise ToolError("needs the hooks")
        violations = fn(work, stats, binary)
        known = {k["signature"]: k for k in known_findings() if k["property"] == prop}
        fresh = []
        for v in violations:
            k = known.get(signature(v))
            if k:
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                fresh.append(v)
        for n, v in enumerate(fresh[:5]):
            path = write_replay(prop, n, dict(v, property=prop, signature=signature(v), seed=SEED, tier=TIER))
            log("%s: %s" % (prop, v["what"]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        if len(fresh) > 5:
            log("... and %d other violations" % (len(fresh) - 5))
        write_evidence(prop, stats, time.time() - t0, len(fresh), assumptions)
        log("%s: %d states of the specification, %d traces of the implementation validated, %d negative controls rejected, %d violations, %.1f s"
            % (prop, stats.distinct, stats.traces, stats.controls, len(fresh), time.time() - t0))
        return 1 if fresh else 0
    except ToolError as e:
        log("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()


if __name__ == "__main__":
    sys.exit(main())
