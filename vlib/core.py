"""Common machinery: building the harness, running TLC, validating traces, reporting."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time, signal, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    """The check itself couldn't do its job"""


class Work:
    """a scratch directory for one run"""
    def __init__(self):
        base = os.environ.get("TMPDIR", "/tmp")
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=base)
        self.n = 0
    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Stats:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.controls = 0
        self.models = []
        self.samples = []
        self.extra = {}


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ harness
def build_harness(features=()):
    """Builds the harness against the current working tree of the repository. Returns the path of the binary.
    What reaches private parts of the crate, through hooks, is left out ("-unhooked") when it doesn't build with them."""
    try:
        return _build_harness(features, True)
    except ToolError as e:
        try:
            binary = _build_harness(features, False)
        except ToolError:
            raise e
        log("the harness only builds without the hooks: %s" % e)
        return binary


def _build_harness(features, hooks):
    features = list(features or ("tol10", "out", "asy")) + (["hooks"] if hooks else [])
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg big_o_verif" if hooks else ""
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "harness", "target")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--no-default-features", "--features", ",".join(features)]
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    with open(os.path.join(env["CARGO_TARGET_DIR"], "verif.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("the harness doesn't build with %s:\n%s" % (",".join(features), p.stdout[-6000:]))
        # builds with other features take its place
        binary = os.path.join(env["CARGO_TARGET_DIR"], "debug", "harness")
        copy = binary + "-" + "-".join(features) + ("" if hooks else "-unhooked")
        shutil.copy2(binary, copy + ".tmp")
        os.replace(copy + ".tmp", copy)
    return copy


def run_harness(binary, work, mode, scenarios, timeout=120, per_scenario=20, env=None):
    """Runs the scenarios through the real code -- in as many processes as needed: one that crashes or hangs on a scenario
    gets its trace marked as such and the others follow. Returns {id: trace}"""
    traces = {}
    pending = list(scenarios)
    casualties = 0
    suspects = set()
    t_end = time.time() + timeout
    while pending:
        inp, outp = work.path("scenarios.json"), work.path("traces.ndjson")
        with open(inp, "w") as f:
            json.dump(pending, f)
        e = dict(os.environ)
        e.update(env or {})
        proc = subprocess.Popen([binary, mode, inp, outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e)
        os.set_blocking(proc.stderr.fileno(), False)
        err = b""
        size, since, hung = -1, time.time(), False
        while True:
            try:
                proc.wait(0.02)
            except subprocess.TimeoutExpired:
                pass
            try:
                chunk = proc.stderr.read()
                if chunk:
                    err = (err + chunk)[-4000:]
            except Exception:
                pass
            if proc.returncode is not None:
                break
            now = os.path.getsize(outp) if os.path.exists(outp) else 0
            if now != size:
                size, since = now, time.time()
            elif time.time() - since > per_scenario:
                hung = True
                proc.kill()
                proc.wait()
                break
            if time.time() > t_end:
                proc.kill()
                proc.wait()
                raise ToolError("the harness took more than %d s in '%s'" % (timeout, mode))
        done = []
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    if line.endswith("\n"):
                        done.append(json.loads(line))
            os.unlink(outp)
        os.unlink(inp)
        for t in done:
            traces[t["id"]] = t
        rest = [s for s in pending if s["id"] not in traces]
        if proc.returncode == 0 and not hung:
            if rest:
                raise ToolError("the harness skipped scenarios in '%s'" % mode)
            break
        if not rest:
            break
        # the first one without a trace is the culprit
        bad = rest[0]
        if hung and bad["id"] not in suspects and not any(t["out"] == "hang" for t in traces.values() if t.get("dead")):
            # ... unless the machine is just too busy: give it more time
            suspects.add(bad["id"])
            per_scenario *= 2
            t_end += 2 * per_scenario
            pending = rest
            continue
        if proc.returncode == 3:
            raise ToolError("harness error in '%s': %s" % (mode, err.decode(errors="replace")))
        traces[bad["id"]] = {"id": bad["id"], "cfg": bad.get("cfg"), "ev": [], "out": "hang" if hung else "crash",
                             "detail": err.decode(errors="replace")[-1500:], "dead": True}
        casualties += 1
        pending = rest[1:]
        if casualties >= 3:
            # enough evidence: don't spend the time on the others
            break
    return traces


# ---------------------------------------------------------------------- TLC
def tlc_cmd(spec, cfg, meta, workers, heap, extra=()):
    return ["java", "-XX:+UseParallelGC", "-Xmx%s" % heap, "-Xss16m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
            "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, os.path.join(SPEC, spec + ".tla")]


def write_cfg(work, name, text):
    p = work.path(name + ".cfg")
    with open(p, "w") as f:
        f.write(text)
    return p


def cfg_text(spec, constants=None, invariants=(), properties=(), constraints=(), post=None, view=None, deadlock=False, action_constraints=()):
    lines = ["SPECIFICATION " + spec]
    if constants:
        lines.append("CONSTANTS")
        for k, v in constants.items():
            lines.append("  %s %s" % (k, v if v.startswith("<-") else "= " + v))
    if invariants:
        lines.append("INVARIANTS " + " ".join(invariants))
    if properties:
        lines.append("PROPERTIES " + " ".join(properties))
    if constraints:
        lines.append("CONSTRAINTS " + " ".join(constraints))
    if action_constraints:
        lines.append("ACTION_CONSTRAINTS " + " ".join(action_constraints))
    if post:
        lines.append("POSTCONDITION " + post)
    if view:
        lines.append("VIEW " + view)
    lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(lines) + "\n"


class Model:
    """A model checking job"""
    def __init__(self, spec, constants=None, invariants=(), properties=(), workers=4, timeout=600, heap="4g", spec_name="MCSpec",
                 constraints=(), view=None, deadlock=False, label=None, emits=True, extra=(), action_constraints=(), sim=None):
        # sim: number of random behaviours to look at, instead of all of them
        self.sim = sim
        if sim:
            extra = tuple(extra) + ("-simulate", "num=%d" % sim, "-depth", "1000", "-seed", str(SEED))
            workers = 1
        self.spec, self.workers, self.timeout, self.heap = spec, workers, timeout, heap
        self.label = label or spec
        self.emits = emits
        self.extra = extra
        self.cfg = cfg_text(spec_name, constants, invariants, properties, constraints, None, view, deadlock, action_constraints)


def _tlc_env(extra=None):
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    env.update(extra or {})
    return env


def run_models(work, stats, models, parallel=4):
    """Model checks; the specification not satisfying its own properties is an error of the check, not a violation.
    Returns, per model, the list of scenarios it printed."""
    results = [None] * len(models)
    queue = list(enumerate(models))
    running = []
    def launch(i, m):
        cfg = write_cfg(work, m.spec, m.cfg)
        meta = work.path("meta")
        outp = work.path("out.txt")
        f = open(outp, "w")
        p = subprocess.Popen(tlc_cmd(m.spec, cfg, meta, m.workers, m.heap, m.extra), stdout=f, stderr=subprocess.STDOUT, env=_tlc_env(), cwd=work.dir)
        running.append((i, m, p, f, outp, meta, time.time()))
    while queue or running:
        while queue and len(running) < parallel:
            launch(*queue.pop(0))
        for job in list(running):
            i, m, p, f, outp, meta, t0 = job
            if p.poll() is None:
                if time.time() - t0 > m.timeout:
                    p.kill(); p.wait()
                    raise ToolError("TLC took more than %d s on %s" % (m.timeout, m.label))
                continue
            running.remove(job)
            f.close()
            scn, other = [], []
            with open(outp) as fi:
                for line in fi:
                    if line.startswith('"SCN '):
                        scn.append(json.loads(json.loads(line)[4:]))
                    else:
                        other.append(line)
            text = "".join(other)
            mm = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
            if m.sim:
                mm = re.search(r"The number of states generated: (\d+)()", text)
            if p.returncode != 0 or not mm:
                raise ToolError("TLC failed on %s (exit %s):\n%s" % (m.label, p.returncode, text[-5000:]))
            stats.states += int(mm.group(1))
            stats.distinct += int(mm.group(2) or 0)
            stats.models.append({"model": m.label + (" (random behaviours)" if m.sim else ""), "states": int(mm.group(1)), "distinct": int(mm.group(2) or 0),
                                 "seconds": round(time.time() - t0, 1), "scenarios": len(scn)})
            results[i] = scn
            shutil.rmtree(meta, ignore_errors=True)
            os.unlink(outp)
        time.sleep(0.02)
    return results


def validate(work, stats, spec, traces, constants=None, shards=None, timeout=300, heap="3g", count=True, spec_name="TSpec", track="Track"):
    """Validates recorded traces against a trace specification. Returns {index: longest prefix} of the rejected ones."""
    if not traces:
        return {}
    if shards is None:
        # by the volume of the traces
        volume = sum(len(t.get("ev", ())) + 12 * len(t.get("pts", ())) + 4 for t in traces)
        shards = max(1, min(7, volume // 6000 + 1, len(traces)))
    groups = [[] for _ in range(shards)]
    for i in range(len(traces)):
        groups[i % shards].append(i)
    jobs = [g for g in groups if g]
    rejected = {}
    running = []
    generation = 0
    def launch(g):
        tf, of, lf = work.path("traces.json"), work.path("verdict.json"), work.path("tlc.txt")
        with open(tf, "w") as f:
            json.dump([traces[i] for i in g], f)
        cfg = write_cfg(work, spec, cfg_text(spec_name, constants, constraints=[track], post="Report"))
        meta = work.path("meta")
        out = open(lf, "w")
        p = subprocess.Popen(tlc_cmd(spec, cfg, meta, 1, heap), stdout=out, stderr=subprocess.STDOUT,
                             env=_tlc_env({"TRACES": tf, "OUT": of}), cwd=work.dir)
        running.append((g, p, tf, of, lf, out, meta, time.time()))
    def enough():
        """there are violations to be reported, whatever the rest is"""
        for job in running:
            job[1].kill(); job[1].wait()
        log("note: not all traces were validated by " + spec)
        return rejected
    for g in jobs:
        launch(g)
    failures = 0
    while running:
        for job in list(running):
            g, p, tf, of, lf, out, meta, t0 = job
            if p.poll() is None:
                if time.time() - t0 > timeout:
                    p.kill(); p.wait()
                    if rejected:
                        return enough()
                    raise ToolError("TLC took more than %d s validating traces with %s" % (timeout, spec))
                continue
            running.remove(job)
            out.close()
            text = open(lf).read()
            mm = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
            if mm:
                stats.states += int(mm.group(1))
                stats.distinct += int(mm.group(2))
            ok = p.returncode == 0 and os.path.exists(of)
            if ok:
                v = json.load(open(of))
                acc = set(x - 1 for x in v["accepted"])
                rej = {x - 1: m for x, m in v["rejected"]}
                if len(acc) + len(rej) != len(g):
                    raise ToolError("incomplete verdict from " + spec)
                for k, m in rej.items():
                    rejected[g[k]] = m
            else:
                # a trace the specification can't even evaluate: isolate it
                failures += 1
                if rejected and failures > 60:
                    return enough()
                if failures > 60 or not re.search(r"Error:", text):
                    raise ToolError("TLC failed validating traces with %s:\n%s" % (spec, text[-4000:]))
                if len(g) == 1:
                    first = re.search(r"Error:.*(?:\n.*){0,6}", text).group(0)
                    rejected[g[0]] = -1
                    log("note: trace not evaluable by %s: %s" % (spec, first[:600]))
                else:
                    # (depth first: some trace is soon found to be blamed)
                    h = len(g) // 2 if failures < 20 else 1
                    launch(g[:h])
                    launch(g[h:])
            for x in (tf, of, lf):
                if os.path.exists(x):
                    os.unlink(x)
            shutil.rmtree(meta, ignore_errors=True)
        time.sleep(0.01)
    if count:
        stats.traces += len(traces)
    return rejected


# ---------------------------------------------------------------- reporting
def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return [k for k in out if k.get("status") == "known"]


def write_replay(prop, n, content):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(p, "w") as f:
        json.dump(content, f, indent=1)
    return p


def write_evidence(prop, stats, wall, violations, assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"states": stats.distinct, "transitions": stats.states, "traces_validated_against_impl": stats.traces,
           "negative_controls_rejected": stats.controls, "models": stats.models, "samples": stats.samples[:4]}
    cov.update(stats.extra)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
                   "coverage": cov, "assumptions": list(assumptions), "wall_s": round(wall, 1), "violations": violations}, f, indent=1)
