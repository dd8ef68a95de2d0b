"""Common machinery of the checks: TLC runner, transition graphs, trace
validation, verdicts, known findings and evidence files.

Every check is a Python module harness/<id>.py with a function run(ctx); it is
started through /verif/run.py.  Exit codes: 0 property held on everything
explored, 1 violation (with a VIOLATION line), 2 machinery failure.
"""

import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = []


def scratch(prefix="vf_"):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append((os.getpid(), d))
    return d


@atexit.register
def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(
            r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", "")
        )
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = "Model checking completed. No error has been found" in out
        self.violated = re.findall(
            r"(?:Invariant|Action property|Temporal properties|property) (\S+) (?:is|was|were) violated",
            out,
        )


def tlc(
    module,
    cfg,
    env=None,
    workers=1,
    timeout=600,
    extra_files=None,
    simulate=None,
    depth=None,
    heap="3g",
    seed=1,
    args=(),
    dfs=False,
):
    """Runs TLC on spec/<module>.tla with config text `cfg`; returns TLCResult."""
    d = scratch("tlc_")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for k, v in (extra_files or {}).items():
        with open(os.path.join(d, k), "w") as fh:
            fh.write(v)
    with open(os.path.join(d, "MC.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    cmd += ["-workers", str(workers), "-config", "MC.cfg"]
    if simulate is not None:
        cmd += ["-simulate", simulate if isinstance(simulate, str) else "num=%d" % simulate, "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout
        )
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as exc:
        out = (exc.stdout or b"").decode() if isinstance(exc.stdout, bytes) else (exc.stdout or "")
        rc = -9
    res = TLCResult(rc, out, time.time() - t0)
    shutil.rmtree(d, ignore_errors=True)
    return res


def must_tlc(*a, **k):
    """TLC run which must succeed: a failure is an error of the model."""
    r = tlc(*a, **k)
    if not (r.ok or (k.get("simulate") is not None and r.rc == 0)):
        raise MachineryError("TLC failed on %s:\n%s" % (a[0], r.out[-4000:]))
    return r


# ---------------------------------------------------------------- graphs
def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    """Labelled transition graph emitted by TLC through EmitTr (see Emit.tla)."""

    def __init__(self):
        self.states = {}
        self.inits = []
        self.succ = {}  # state key -> list of (action, key)
        self.n = 0

    @staticmethod
    def load(path):
        g = Graph()
        seen = set()
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if not line:
                    continue
                if line.startswith('"'):
                    line = json.loads(line)
                r = json.loads(line)
                if "i" in r:
                    k = canon(r["i"])
                    g.states[k] = r["i"]
                    if k not in g.inits:
                        g.inits.append(k)
                    continue
                kf, kt, ka = canon(r["f"]), canon(r["t"]), canon(r["a"])
                if (kf, ka, kt) in seen:
                    continue
                seen.add((kf, ka, kt))
                g.states[kf] = r["f"]
                g.states[kt] = r["t"]
                g.succ.setdefault(kf, []).append((r["a"], kt))
                g.n += 1
        if not g.inits:
            raise MachineryError("no initial state emitted")
        return g

    def bfs(self):
        par = {k: None for k in self.inits}
        q = list(self.inits)
        i = 0
        while i < len(q):
            k = q[i]
            i += 1
            for a, t in self.succ.get(k, []):
                if t not in par:
                    par[t] = (k, a)
                    q.append(t)
        return par

    def prefix(self, par, k):
        p = []
        while par[k] is not None:
            pk, a = par[k]
            p.append((pk, a, k))
            k = pk
        p.reverse()
        return p

    def paths(self, maxlen=40, rng=None, limit=None):
        """Walks from an initial state that together cover every transition."""
        rng = rng or random.Random(1)
        par = self.bfs()
        un = {}
        order = []
        for k in self.succ:
            if k in par:
                un[k] = list(self.succ[k])
                rng.shuffle(un[k])
                order.append(k)
        rng.shuffle(order)
        # deepest sources first: prefixes of long walks cover shallow edges too
        out = []
        while True:
            while order and not un[order[-1]]:
                order.pop()
            if not order:
                break
            k0 = order[-1]
            path = self.prefix(par, k0)
            for (f, a, t) in path:
                if un.get(f):
                    un[f] = [(b, u) for (b, u) in un[f] if not (u == t and b == a)]
            k = k0
            while len(path) < maxlen or k == k0:
                if un.get(k):
                    a, t = un[k].pop()
                else:
                    break
                path.append((k, a, t))
                k = t
            out.append(path)
            if limit and len(out) >= limit:
                break
        return out

    def random_walk(self, rng, n):
        k = rng.choice(self.inits)
        p = []
        for _ in range(n):
            s = self.succ.get(k)
            if not s:
                break
            a, t = rng.choice(s)
            p.append((k, a, t))
            k = t
        return p


def tlc_graph(module, cfg, env=None, timeout=600, heap="4g", constants=""):
    """Exhaustive TLC run with emission of every transition; cfg must contain
    ACTION_CONSTRAINT EmitTr and INVARIANT EmitInit (see Emit.tla)."""
    d = scratch("gr_")
    out = os.path.join(d, "tr.ndjson")
    open(out, "w").close()
    e = dict(env or {})
    e["EMIT_OUT"] = out
    r = must_tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
    g = Graph.load(out)
    shutil.rmtree(d, ignore_errors=True)
    return r, g


def _tla_val(s):
    s = s.strip()
    if s.startswith('"'):
        return json.loads(s)
    if s in ("TRUE", "FALSE"):
        return s == "TRUE"
    if re.fullmatch(r"-?\d+", s):
        return int(s)
    if s.startswith("<<") and s.endswith(">>"):
        inner = s[2:-2].strip()
        return [_tla_val(x) for x in _split(inner)] if inner else []
    if s.startswith("{") and s.endswith("}"):
        inner = s[1:-1].strip()
        return [_tla_val(x) for x in _split(inner)] if inner else []
    if s.startswith("[") and s.endswith("]"):
        out = {}
        for f in _split(s[1:-1]):
            k, v = f.split("|->", 1)
            out[k.strip()] = _tla_val(v)
        return out
    return s


def _split(s):
    out, depth, cur, q = [], 0, "", False
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            q = not q
        if not q:
            if s[i : i + 2] in ("<<", ">>"):
                depth += 1 if s[i] == "<" else -1
                cur += s[i : i + 2]
                i += 2
                continue
            if c in "[{(":
                depth += 1
            if c in "]})":
                depth -= 1
            if c == "," and depth == 0:
                out.append(cur)
                cur = ""
                i += 1
                continue
        cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return out


def sim_walks(module, cfg, n, depth, seed=1, var="act", extra_files=None, timeout=300):
    """n random behaviours of the specification (TLC simulation); returns the
    sequences of values of variable `var` after the initial state."""
    d = scratch("sw_")
    tlc_args = "file=%s/w,num=%d" % (d, n)
    r = tlc(module, cfg, simulate=tlc_args, depth=depth, seed=seed, extra_files=extra_files, timeout=timeout)
    if r.rc != 0:
        raise MachineryError("TLC simulation failed on %s:\n%s" % (module, r.out[-3000:]))
    ws = []
    for f in sorted(os.listdir(d)):
        txt = open(os.path.join(d, f)).read()
        seq = []
        for st in re.split(r"\nSTATE_\d+ ==|\nSTATE \d+:?.*", "\n" + txt)[1:]:
            m = re.search(r"/\\ %s = (.*?)(?=\n/\\ |\n\n|\Z)" % var, st, re.S)
            if m:
                seq.append(_tla_val(" ".join(m.group(1).split())))
        ws.append(seq[1:])
    shutil.rmtree(d, ignore_errors=True)
    return ws


# ---------------------------------------------------------------- traces
def validate_traces(module, cfg, traces, timeout=600, heap="4g", dfs=False, env=None):
    """Validates a list of event sequences against spec/<module>.tla (a trace
    spec using TraceBase.tla).  Returns (TLCResult, progress) where progress[i]
    is the number of events of trace i explained by the specification; trace i
    is accepted iff progress[i] == len(traces[i]).  An invariant violated on the
    way is reported through TLCResult.violated."""
    d = scratch("tv_")
    fn = os.path.join(d, "traces.json")
    with open(fn, "w") as fh:
        json.dump(traces, fh)
    e = dict(env or {})
    e["TRACE_IN"] = fn
    r = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap, dfs=dfs)
    m = re.search(r'"PROGRESS (\[.*?\])"', r.out)
    shutil.rmtree(d, ignore_errors=True)
    prog = None
    if m:
        prog = json.loads(m.group(1))
    elif not r.violated:
        raise MachineryError("trace validation of %s failed:\n%s" % (module, r.out[-3000:]))
    return r, prog


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.viol = []
        self.known_hit = []
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
        }
        self.assumptions = []
        self.known = []
        fn = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get("property") == pid and k.get("kind") == "known":
                        self.known.append(k)

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self, budget_quick, budget_thorough=None):
        b = budget_quick if self.quick else (budget_thorough or 10 * budget_quick)
        return b - (time.time() - self.t0)

    def tlc_stats(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def sample(self, s, maxn=6):
        if len(self.cov["samples"]) < maxn:
            self.cov["samples"].append(s)

    def traces(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, clause, detail, key=None):
        """clause: which part of the property failed; detail: JSON-able replay.
        key: identifies the finding for the known-findings file."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.viol.append({"clause": clause, "key": key, "detail": detail})

    def finish(self, level):
        wall = time.time() - self.t0
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        if self.viol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            with open(rp, "w") as fh:
                json.dump(self.viol[:200], fh, indent=1, default=str)
            v = self.viol[0]
            print("violated clause: %s" % v["clause"])
            print(json.dumps(v["detail"], default=str)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print(
            "%s ok: %d model states, %d transitions, %d traces against the implementation, %.1f s"
            % (
                self.pid,
                self.cov["states"],
                self.cov["transitions"],
                self.cov["traces_validated_against_impl"],
                wall,
            )
        )
        return 0


def in_repo(exc):
    """True if the innermost frame of the exception belongs to the code under
    test (then the exception is behaviour, not a machinery failure)."""
    tb = traceback.extract_tb(exc.__traceback__)
    root = os.path.realpath(REPO)
    last = None
    for f in tb:
        fn = os.path.realpath(f.filename)
        if fn.startswith(root + os.sep):
            last = "repo"
        elif fn.startswith(VERIF + os.sep):
            last = "verif"
    return last == "repo"


def exc_info(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-2500:]


# ---------------------------------------------------------------- workers
def run_py(script, payload, timeout=300, env=None, cwd=None):
    """Runs harness script in a fresh interpreter: JSON on stdin, JSON on the
    last stdout line starting with @@RESULT. Returns (result or None, output)."""
    e = dict(os.environ)
    e["PYTHONPATH"] = REPO + ":" + VERIF
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e.update(env or {})
    d = cwd or scratch("run_")
    try:
        p = subprocess.run(
            [PY, script],
            input=json.dumps(payload),
            capture_output=True,
            text=True,
            timeout=timeout,
            env=e,
            cwd=d,
        )
        out = p.stdout + "\n" + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out = str(ex.stdout)[-2000:] + str(ex.stderr)[-2000:]
        rc = "timeout"
        p = None
    finally:
        if cwd is None:
            shutil.rmtree(d, ignore_errors=True)
    res = None
    if p is not None:
        for line in p.stdout.splitlines():
            if line.startswith("@@RESULT "):
                res = json.loads(line[9:])
    return res, "rc=%s\n%s" % (rc, out[-4000:])


def emit_result(obj):
    import numpy as np

    def dflt(o):
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, (np.integer,)):
            return int(o)
        if isinstance(o, (np.floating,)):
            return float(o)
        if isinstance(o, (np.bool_,)):
            return bool(o)
        return str(o)

    sys.stdout.flush()
    sys.stdout.write("\n@@RESULT " + json.dumps(obj, default=dflt) + "\n")
    sys.stdout.flush()


def pmap(fn, items, workers=8):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def procmap(fn, items, workers=6, timeout=600, chunk=1, fresh=8):
    """map over forked processes (functions that change global state or cwd)"""
    import multiprocessing as mp

    with mp.get_context("fork").Pool(workers, maxtasksperchild=fresh) as pool:
        rs = [pool.apply_async(fn, (i,)) for i in items]
        out = []
        t0 = time.time()
        for r in rs:
            out.append(r.get(max(1, timeout - (time.time() - t0))))
        return out
