"""C04: the matching policies.  Sched.tla + poll-by-poll replay with gated
clients + SchedTrace."""

import json
import os
import random

from harness import sockcheck as K
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the matching policies checked with TLC; behaviours simulated from it are played poll by poll against the real interface with gated clients, and the observed assignments are validated against the specification with TLC"
NOTE = "exhaustive on the specification for 2-3 clients and 3-4 requests; assignments of the real server sampled along specification behaviours for auto/any/lock, threaded, consolidated and batched dispatch"

LAB = os.path.join(vf.VERIF, "harness", "schedlab.py")
CFG = 'CONSTANTS NC=%d NR=%d Match="%s" Piped=%s Batch=%d MaxFaults=%d\n'
COMBOS = [
    ("auto", False, 1),
    ("auto", True, 1),
    ("any", False, 1),
    ("any", True, 1),
    ("lock", False, 1),
    ("lock", True, 1),
    ("auto", True, 2),
    ("lock", True, 3),
]


def const(nc, nr, combo, f):
    m, p, b = combo
    return CFG % (nc, nr, m, "TRUE" if p else "FALSE", b, f)


def scenarios(ctx, combo, n, nc=4, nr=10):
    """Behaviours simulated by TLC, projected on what the environment does."""
    cfg = const(nc, nr, combo, 2) + "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    walks = vf.sim_walks("Sched", cfg, n, 120, seed=ctx.seed + len(combo[0]))
    rng = random.Random("%s%s" % (ctx.seed, combo))
    scs = []
    seen = set()
    for w in walks:
        nrep = rng.choice([1, 2, 3, 4])
        steps, r = [], 0
        for a in w:
            if a["op"] == "submit":
                steps.append(["submit", r % nrep if rng.random() < 0.8 else rng.randrange(nrep)])
                r += 1
                # replicas are usually submitted together
            elif a["op"] in ("conn", "fin", "die", "arm"):
                steps.append([a["op"], a["c"]])
            elif a["op"] == "poll":
                steps.append(["poll"])
        if not any(s[0] == "conn" for s in steps) or r < 2:
            continue
        steps += [["poll"]]
        key = vf.canon(steps)
        if key in seen:
            continue
        seen.add(key)
        scs.append(
            dict(
                mode=rng.choice(["unix", "unix", "inet", "shm"]),
                consolidate=combo[1],
                match=combo[0],
                batch=combo[2],
                nat=1,
                manual=True,
                maxconn=nc,
                steps=steps,
                init=[rng.choice(["no", "first", "always"]) for _ in range(nc)],
            )
        )
    # steps of a simulation: all replicas submitted, served by fewer clients,
    # clients joining and leaving in between
    for _ in range(n // 3):
        nrep = rng.choice([2, 3, 4])
        ncl = rng.choice([1, 2, 3, 4])
        steps = []
        conn = 0
        faults = 0
        for c in range(rng.choice([1, ncl])):
            conn += 1
            steps.append(["conn", conn])
        steps += [["poll"]] * 2
        for s in range(4):
            ids = list(range(nrep))
            if rng.random() < 0.5:
                rng.shuffle(ids)
            steps += [["submit", i] for i in ids]
            for _ in range(nrep + 2):
                if conn < ncl and rng.random() < 0.3:
                    conn += 1
                    steps.append(["conn", conn])
                if faults < 2 and rng.random() < 0.1:
                    steps.append(["arm" if combo[1] else "die", rng.randint(1, ncl)])
                    faults += 1
                    if combo[1] and steps[-1][1] > conn:
                        steps.pop()
                        faults -= 1
                steps += [["poll"]]
                cs = list(range(1, ncl + 1))
                rng.shuffle(cs)
                for c in cs[: rng.choice([1, 2, ncl])]:
                    if not combo[1]:
                        steps.append(["fin", c])
            steps += [["poll"]] * 2
        scs.append(
            dict(
                mode=rng.choice(["unix", "unix", "inet", "shm"]),
                consolidate=combo[1],
                match=combo[0],
                batch=combo[2],
                nat=1,
                manual=True,
                maxconn=ncl,
                steps=steps,
                init=[rng.choice(["no", "first", "always"]) for _ in range(ncl)],
            )
        )
    return scs


BODY = """SPECIFICATION TSpec
CONSTRAINT Track
VIEW tview
INVARIANTS OneHolder RunningHeld LockOne
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""
SAFE = """SPECIFICATION Spec
INVARIANTS OneHolder RunningHeld LockOne
PROPERTIES PrefersOwn NewFirst Oldest
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    sizes = [(2, 3, 1), (3, 3, 1)] if ctx.quick else [(2, 3, 1), (3, 3, 1), (3, 4, 1), (2, 5, 1)]
    jobs = [const(a, b, c, f) + SAFE for (a, b, f) in sizes for c in COMBOS]
    for r in vf.pmap(lambda c: vf.must_tlc("Sched", c, workers=2, timeout=1500), jobs, 4):
        ctx.tlc_stats(r)
    n = ctx.n(20, 150)
    gen = vf.pmap(lambda c: scenarios(ctx, c, n), COMBOS, 4)
    scs, combo = [], []
    for c, g in zip(COMBOS, gen):
        scs += g
        combo += [c] * len(g)
    ctx.cov["schedules"] = len(scs)
    res = run_lab(scs)
    bad = [i for i, r in enumerate(res) if r is None or r.get("err")]
    for i in bad[:2]:
        again = run_lab([scs[i]], 1)[0]
        if again is None or again.get("err"):
            ctx.violation("polling the interface failed", {"scenario": scs[i], "error": (again or {}).get("err")})
        res[i] = again
    groups = {}
    for i, r in enumerate(res):
        if r and not r.get("err"):
            groups.setdefault(combo[i], []).append(i)
    jobs = []
    for c, idx in groups.items():
        for a in range(0, len(idx), 30):
            jobs.append((c, idx[a : a + 30]))

    def one(job):
        c, idx = job
        trs = [res[i]["trace"] for i in idx]
        nr = max(1, max(len(res[i]["rep"]) for i in idx))
        return job, trs, vf.validate_traces("SchedTrace", const(4, nr, c, 99) + BODY, trs, timeout=900)

    for (c, idx), trs, (r, prog) in vf.pmap(one, jobs, 6):
        ctx.tlc_stats(r)
        if prog is None:
            ctx.violation("invariant %s violated" % r.violated, r.out[-2000:])
            continue
        ctx.traces(len(idx))
        ctx.count("polls", sum(1 for t in trs for e in t if e["e"] == "poll"))
        ctx.count("assignments", sum(len(e["asg"]) for t in trs for e in t if e["e"] == "poll"))
        for i, t, p in zip(idx, trs, prog):
            if p < len(t):
                ctx.violation(
                    "assignment not allowed by the policy: %s" % json.dumps(t[p]),
                    {"scenario": scs[i], "trace": t[: p + 1]},
                )
    ctx.sample({"steps": scs[0]["steps"][:30], "trace": (res[0] or {}).get("trace", [])[:20]})
    ctx.assumptions.append("clients die only while they hold an evaluation in these schedules; deaths elsewhere are covered by C01")


def run_lab(scs, workers=8):
    import subprocess
    import threading

    res = [None] * len(scs)
    todo = list(range(len(scs)))[::-1]
    lock = threading.Lock()
    raise_in = []
    env = dict(os.environ)
    env.update(PYTHONPATH=vf.REPO + ":" + vf.VERIF, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")

    def work():
        while True:
            with lock:
                if not todo:
                    return
                mine = [todo.pop() for _ in range(min(6, len(todo)))]
            while mine:
                p = subprocess.Popen([vf.PY, LAB], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
                try:
                    o, er = p.communicate(json.dumps([[i, scs[i]] for i in mine]), timeout=300)
                except subprocess.TimeoutExpired:
                    p.kill()
                    o, er = p.communicate()
                got = []
                for line in o.splitlines():
                    if line.startswith("@@R "):
                        i, r = json.loads(line[4:])
                        res[i] = r
                        got.append(i)
                rest = [i for i in mine if i not in got]
                if not got:
                    raise_in.append("schedule worker died: " + er[-2000:])
                    return
                    rest = rest[1:]
                mine = rest

    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if raise_in:
        raise vf.MachineryError(raise_in[0])
    return res
