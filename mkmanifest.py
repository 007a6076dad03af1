#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks (a development tool)."""
import json, subprocess
from vlib import registry
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
NOTE = ("TLC decides, on the explicit specification, that it has the property (within the bounds of its configurations), and that every recorded execution of the real code -- "
        "driven by behaviours generated from that specification -- is one of its behaviours. Assurance is bounded by the configurations enumerated; ")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "big_o_verif", "enable": "RUSTFLAGS=\"--cfg big_o_verif\" cargo build --manifest-path /verif/harness/Cargo.toml (done by check.py on every run)",
               "source_commits": [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " verification hook" in l]},
     "checks": [], "not_applicable": [], "notes": "TLA+ specifications (spec/), checked with TLC and bound to the code by harness/ -- see DESIGN.md"}
for p in props:
    if p in registry.CHECKS:
        fn, features, assumptions, technique = registry.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                            "technique": technique, "level": "model_checking", "level_note": NOTE + "assumes: " + "; ".join(assumptions) + "."})
    else:
        m["not_applicable"].append({"property": p, "reason": "the check is still being built"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
