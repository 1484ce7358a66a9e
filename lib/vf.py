"""Shared machinery of the checks: building the code under test, compiling harnesses, running TLC
(exhaustive model checking, scenario generation, trace validation), evidence and verdicts."""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = f"{REPO}/_build"
OUT = f"{VERIF}/build"
SPEC = f"{VERIF}/spec"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class CheckError(Exception):
    """the check itself could not decide (build failure, model error, ...): error exit, never a verdict"""


def log(*a):
    print(f"[{time.time() - T0:7.1f}s]", *a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        def t(s):
            return s.decode(errors="replace") if isinstance(s, bytes) else (s or "")
        return "timeout", t(x.stdout), t(x.stderr)


# ---------------------------------------------------------------- building

def build(targets=("hexed",)):
    """incremental build of the current working tree with the repository's own build script"""
    os.makedirs(OUT, exist_ok=True)
    with open(f"{OUT}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in range(2):
            rc, so, se = sh(["bash", "/opt/vp/build.sh", *targets], timeout=840)
            if rc == 0:
                break
        if rc != 0:
            raise CheckError(f"building the code under test failed ({rc}):\n{so[-3000:]}\n{se[-2000:]}")
    log("built", *targets)


def harness(name, opt="-O1", extra=(), libs=()):
    """compile /verif/harness/<name>.cpp against the current headers and link it with the freshly built library"""
    os.makedirs(OUT, exist_ok=True)
    exe = f"{OUT}/{name}"
    src = f"{VERIF}/harness/{name}.cpp"
    cmd = ["g++", "-std=c++20", opt, "-DNDEBUG", "-fopenmp", "-w",
           f"-I{VERIF}/harness", f"-I{BUILD}/include/auto", f"-I{REPO}/include",
           "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
           "-isystem", "/usr/include/opencascade", *extra, src, "-o", exe,
           f"-L{BUILD}", "-lhexed", f"-Wl,-rpath,{BUILD}",
           "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5", *libs]
    rc, so, se = sh(cmd, timeout=400)
    if rc != 0:
        raise CheckError(f"harness {name} does not compile:\n{se[-4000:]}")
    log("compiled harness", name)
    return exe


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = rc == 0

    def prints(self, tag):
        """values printed by PrintT(<<"tag", ToJson(x)>>)"""
        res = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % re.escape(tag), self.out, re.M):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return res

    def action_counts(self):
        """per-action (distinct, total) from -coverage"""
        res = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", self.out, re.M):
            a = res.setdefault(m.group(1), [0, 0])
            a[0] += int(m.group(2))
            a[1] += int(m.group(3))
        return res


def tlc(spec, cfg, env=None, workers=4, timeout=600, heap="3g", extra=(), tag=""):
    """run TLC on spec/<spec>.tla with spec/<cfg>.cfg"""
    meta = f"{OUT}/tlc/{spec}-{cfg}-{tag}-{os.getpid()}-{time.time_ns()}"
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m",
           "-cp", JAR, "tlc2.TLC", "-config", f"{SPEC}/{cfg}.cfg", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", *extra, f"{SPEC}/{spec}.tla"]
    rc, so, se = sh(cmd, timeout=timeout, env=env, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, so + se)


def model_check(spec, cfg, ctx, need_actions=(), **kw):
    """exhaustive run: the specification itself has to satisfy its invariants, and every action has to be taken"""
    r = tlc(spec, cfg, extra=("-coverage", "1", *kw.pop("extra", ())), **kw)
    if not r.ok or "No error has been found" not in r.out:
        raise CheckError(f"TLC on {spec}/{cfg} failed ({r.rc}):\n{r.out[-6000:]}")
    acts = r.action_counts()
    for a in need_actions:
        if acts.get(a, [0, 0])[1] == 0:
            raise CheckError(f"vacuous model {spec}/{cfg}: action {a} is never taken; actions: {acts}")
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append({"spec": spec, "cfg": cfg, "distinct": r.distinct, "generated": r.generated, "depth": r.depth,
                       "actions": {k: v[1] for k, v in sorted(acts.items())}})
    log(f"model {spec}/{cfg}: {r.distinct} distinct states, {r.generated} transitions, depth {r.depth}")
    return r


def generate(spec, cfg, ctx, tag="SCN", **kw):
    """scenarios printed by TLC while it explores spec/cfg"""
    r = tlc(spec, cfg, **kw)
    if not (r.ok or kw.get("timeout_ok")):
        raise CheckError(f"TLC generation on {spec}/{cfg} failed ({r.rc}):\n{r.out[-6000:]}")
    scn = r.prints(tag)
    if not scn:
        raise CheckError(f"TLC generated no scenario from {spec}/{cfg}:\n{r.out[-3000:]}")
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append({"spec": spec, "cfg": cfg, "distinct": r.distinct, "generated": r.generated, "scenarios": len(scn)})
    log(f"generated {len(scn)} scenarios from {spec}/{cfg} ({r.distinct} states)")
    return scn


# ---------------------------------------------------------------- trace validation

def validate_one(spec, cfg, path, timeout, heap, env):
    r = tlc(spec, cfg, env={"TRACE": path, **(env or {})}, workers=1, timeout=timeout, heap=heap,
            tag=os.path.basename(path))
    n = sum(1 for _ in open(path))
    m = re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)
    if r.ok and "No error has been found" in r.out and not m:
        return True, n, r
    if m:
        return False, int(m[-1][0]), r  # index (from 1) of the first line that no specification step explains
    m = re.search(r"Invariant (\w+) is violated|is violated", r.out)
    if m and "violated" in r.out:
        # an invariant of the specification fails on the recorded state
        st = re.findall(r"^State (\d+):", r.out, re.M)
        return False, (int(st[-1]) - 1 if st else 0), r
    raise CheckError(f"trace validation {spec}/{cfg} on {path} ended abnormally ({r.rc}):\n{r.out[-5000:]}")


def split_traces(lines, parts):
    """split a list of ndjson lines at its 'reset' events into about equal parts"""
    groups, cur = [], []
    for ln in lines:
        if ln.startswith('{"ev":"reset"') and cur:
            groups.append(cur)
            cur = []
        cur.append(ln)
    if cur:
        groups.append(cur)
    parts = max(1, min(parts, len(groups)))
    w = [sum(len(x) for x in g) for g in groups]
    chunks = [[] for _ in range(parts)]
    load = [0] * parts
    for i in sorted(range(len(groups)), key=lambda i: -w[i]):
        k = load.index(min(load))
        chunks[k].append(i)
        load[k] += w[i]
    return [[groups[i] for i in sorted(c)] for c in chunks if c], len(groups)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.dir = f"{OUT}/{pid}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, *events):
        """vacuity guard: the recorded traces have to contain these events"""
        if not self.violations:
            for e in events:
                if not self.counts.get(e):
                    raise CheckError(f"vacuous: no {e} event was recorded: {self.counts}")

    def violation(self, what, replay_lines=None, replay=None):
        if replay is None:
            replay = f"{self.dir}/violation{len(self.violations)}.ndjson"
            with open(replay, "w") as f:
                f.write("\n".join(replay_lines or []) + "\n")
        self.violations.append((what, replay))
        log("VIOLATED:", what[:600])

    def finish(self, level="model_checking"):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "trace_events": self.events,
                           "models": self.models, "event_counts": self.counts, "samples": self.samples},
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}", flush=True)
        for what, replay in self.violations:
            print(f"# {what}"[:600])
            print(f"VIOLATION property={self.pid} replay={replay}", flush=True)
        log("done", self.pid, "violations:", len(self.violations), "traces:", self.traces, "events:", self.events)
        return 1 if self.violations else 0


def run_harness(exe, args, timeout=300, env=None, stdin=None, cwd=None):
    """run the code under test in a scratch directory that the check creates and removes"""
    tmp = cwd or f"{OUT}/scratch/{os.getpid()}-{time.time_ns()}"
    os.makedirs(tmp, exist_ok=True)
    e = {"OMP_NUM_THREADS": "2"}
    e.update(env or {})
    try:
        return sh([exe, *map(str, args)], timeout=timeout, env=e, cwd=tmp, stdin=stdin)
    finally:
        if not cwd:
            shutil.rmtree(tmp, ignore_errors=True)


def record(ctx, exe, args, trace, timeout=300, env=None, stdin=None):
    """run a harness which writes an ndjson trace to `trace`. A crash or hang of the code under test that repeats is a
    violation (the code did not complete a call which the specification allows); returns the recorded lines"""
    outcome = None
    for attempt in range(2):
        if os.path.exists(trace):
            os.unlink(trace)
        rc, so, se = run_harness(exe, [*args, trace], timeout=timeout, env=env, stdin=stdin)
        lines = open(trace, errors="replace").read().split("\n") if os.path.exists(trace) else []
        lines = [x for x in lines if x.endswith("}")]
        if rc == 0:
            return lines
        if outcome is not None and outcome != rc:
            log(f"harness outcome not repeatable: {outcome}, then {rc}")
        outcome = rc
        log(f"harness ended with {rc} (attempt {attempt}): {se[-800:]}")
    if outcome == 77:
        raise CheckError(f"harness reported an internal error: {se[-2000:]}")
    ctx.violation(f"the code under test did not complete ({'hang' if outcome == 'timeout' else 'exit ' + str(outcome)}) "
                  f"after {len(lines)} recorded events: {se[-600:]}", lines[-200:])
    return lines


def validate(ctx, spec, cfg, lines, parts=6, timeout=700, heap="2500m", env=None, rerecord=None, chain=True, what=""):
    """validate recorded traces against spec/<spec>.tla. A rejection becomes a violation if it repeats on traces recorded
    again (`rerecord` returns fresh lines)"""
    if not lines:
        if ctx.violations:
            return True
        raise CheckError(f"empty trace for {spec}")

    def once(lines, tag):
        chunks, n = split_traces(lines, parts)
        jobs = []
        with cf.ThreadPoolExecutor(max_workers=min(8, len(chunks))) as ex:
            for i, ch in enumerate(chunks):
                path = f"{ctx.dir}/{spec}{what}-{tag}-{i}.ndjson"
                with open(path, "w") as f:
                    for g in ch:
                        f.write("\n".join(g) + "\n")
                jobs.append((path, ch, ex.submit(validate_one, spec, cfg, path, timeout, heap, env)))
        bad = []
        for path, ch, j in jobs:
            ok, n_ev, r = j.result()
            ctx.states += r.distinct
            ctx.transitions += r.generated
            if ok:
                os.unlink(path)
                continue
            # extract the trace containing the rejected event
            at, grp = 0, None
            for g in ch:
                if at + len(g) >= n_ev:
                    grp = g[:max(1, n_ev - at)]
                    break
                at += len(g)
            bad.append((path, n_ev, grp or ch[-1], r))
        return bad, n

    bad, n = once(lines, "a")
    if bad and rerecord:
        log(f"{len(bad)} rejected chunk(s) of {spec}; recording again")
        again = rerecord()
        bad2, _ = once(again, "b")
        if not bad2:
            log("rejection did not repeat: not reported")
            bad = []
    for path, n_ev, grp, r in bad[:3]:
        ctx.violation(f"{spec}{what}: no step of the specification explains event {len(grp)} of a recorded trace: "
                      f"{grp[-1][:600]}", grp)
        for x in re.findall(r'^<<\s?"WHY",(.*?)>>$', r.out, re.M | re.S)[-3:]:
            log("WHY", re.sub(r"\s+", " ", x)[:900])
    if not bad:
        ctx.traces += n
        ctx.events += len(lines)
        log(f"{n} traces ({len(lines)} events) accepted by {spec}{what}")
    for ln in lines[:400]:
        m = re.match(r'\{"ev":"(\w+)"', ln)
        if m and m.group(1) != "reset":
            ctx.sample(json.loads(ln) if len(ln) < 1500 else ln[:300] + "...")
    for ln in lines:
        m = re.match(r'\{"ev":"(\w+)"', ln)
        if m:
            ctx.count(m.group(1))
    return not bad


def main(pid, fn, level="model_checking"):
    ctx = Ctx(pid)
    try:
        fn(ctx)
        rc = ctx.finish(level)
    except CheckError as x:
        if ctx.violations:
            rc = ctx.finish(level)
        else:
            print(f"ERROR of the check {pid}: {x}", flush=True)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
