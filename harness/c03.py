"""C03: the bundled drivers.  Driver.tla + conversations simulated from it held
with the real drivers + DriverTrace."""

import json
import os
import random
import subprocess
import sys

import numpy as np

from harness import drvlab
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of a driver and of any legal server, checked with TLC; conversations simulated from the specification are held with the real Python and Fortran drivers over unix, inet, shared memory and MPI transports, and what the server read is validated against the specification with TLC"
NOTE = "exhaustive on the specification for two structures and six messages in flight orders; conversations with the real drivers are sampled from it, with fragmented messages, pipelining, batches and connection ends within messages"

CFG = "CONSTANTS Need=%s Push=%s NS=%d B=%d MaxWire=%d MaxMsg=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def B(x):
    return "TRUE" if x else "FALSE"


def walks(ctx, need, push, ns, b, n):
    out = []
    seen = set()
    for w in vf.sim_walks("DriverMC", CFG % (B(need), B(push), ns, b, 4, 14), n, 60, seed=ctx.seed + ns + 7 * b):
        ops = [[a["op"]] + ([a["s"]] if a["op"] == "pos" else []) for a in w if a["op"] not in ("handle", "none")]
        if vf.canon(ops) in seen or not any(o[0] == "pos" for o in ops):
            continue
        seen.add(vf.canon(ops))
        if ops[-1][0] not in ("exit", "drop", "cut"):
            ops.append(None)
        out.append(ops)
    return out


def run(ctx):
    for need, push, b in [(True, False, 1), (False, False, 1), (True, False, 2), (True, True, 2)]:
        cfg = CFG % (B(need), B(push), 2, b, 3, ctx.n(5, 7) if b == 1 else ctx.n(4, 6))
        ctx.tlc_stats(vf.must_tlc("DriverMC", cfg + "INVARIANT Inv\nPROPERTY Leaves\n", timeout=1500))
    exe = drvlab.build_f90()
    rng = random.Random(ctx.seed)
    jobs = []
    py = [("vfpes", 1), ("vfpes", 2), ("vfpes", 3), ("harmonic", 1), ("harmonic", 2)]
    f90 = [("harm3d", 1, False), ("harm", 1, False), ("gas", 1, False), ("lj", 1, False), ("qtip4pf", 1, False), ("water_dip_pol", 1, False), ("batch-dummy", 2, True), ("harm3d", 1, "shm"), ("harm3d", 2, "shm"), ("qtip4pf", 3, "shm"), ("lj", 2, "shm")]
    W = {}

    def get(need, b):
        if (need, b) not in W:
            W[need, b] = walks(ctx, need, False, 3, b, ctx.n(60, 900))
        return rng.choice(W[need, b])

    def fin(ops):
        ops = [list(o) if o else [rng.choice(["exit", "drop", "cut"])] for o in ops]
        return ops

    for i in range(ctx.n(150, 3000)):
        pes, b = rng.choice(py)
        jobs.append(dict(lang="py", pes=pes, batch=b, need=True, mode=rng.choice(["unix", "inet", "shm"]), sub=i < ctx.n(6, 40), nat=rng.choice([1, 2, 5]), ops=fin(get(True, b))))
    for i in range(ctx.n(110, 2000)):
        pes, b, how = f90[i % len(f90)]
        nat = {"qtip4pf": rng.choice([3, 6]), "water_dip_pol": rng.choice([3, 6]), "lj": 4}.get(pes, rng.choice([1, 2, 5]))
        need = bool(how)
        mode = "shm" if how == "shm" else rng.choice(["unix", "inet"])
        jobs.append(dict(lang="f90", exe=exe, pes=pes, batch=b, need=need, mode=mode, nat=nat, ops=fin(get(need, b))))
    for j in jobs:
        j.update(ns=3, frag=rng.choice([0, 1, 2]), seed=rng.randrange(10**9))
    # results of many atoms do not fit in the buffers of the socket
    for mode in ("unix", "inet"):
        o = [["init"]] + 2 * [["pos", [1]], ["get"], ["status"], ["recv"], ["recv"], ["pos", [2]], ["status"], ["recv"], ["get"], ["recv"]] + [["exit"]]
        jobs.append(dict(lang="py", pes="harmonic", batch=1, need=True, mode=mode, nat=60000, ops=o, ns=2, frag=0, seed=rng.randrange(10**9)))
        jobs.append(dict(lang="f90", exe=exe, pes="harm3d", batch=1, need=False, mode=mode, nat=60000, ops=o[1:], ns=2, frag=0, seed=rng.randrange(10**9)))
    traces = vf.procmap(drvlab.session, jobs, workers=8, timeout=ctx.n(600, 6000), fresh=200)
    for j in jobs:
        ctx.count("conversations %s %s" % (j["lang"], j["mode"]))
    m, mt = mpi(ctx, rng, exe)
    jobs += m
    traces += mt
    ctx.traces(len(traces))
    _, good = vf.validate_traces("DriverTrace", "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", traces, timeout=900)
    for j, t, p in zip(jobs, traces, good):
        if p < len(t):
            ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(t[p])[:200]), dict(job={k: v for k, v in j.items() if k not in ("ref", "structs")}, trace=t[: p + 1]))
    ctx.sample(dict(job=jobs[0], trace=traces[0][:40]))
    ctx.assumptions += [
        "the server follows the protocol: POSDATA after INIT when the driver asked for it, GETFORCE only for a structure that was sent, one number of atoms and one batch size per connection, a non-empty INIT string",
        "shared memory is written by the server only between answers",
        "the lj potential of the Fortran driver is used with a constant cell (its cutoff scales with the first volume it sees)",
    ]


def mpi(ctx, rng, exe):
    """a scripted MPI server and real MPI drivers"""
    items = []
    for i in range(ctx.n(8, 60)):
        lang = ["py", "f90"][i % 2]
        g = rng.choice([1, 1, 2])
        ng = rng.choice([1, 2])
        pes = "vfpes" if lang == "py" else rng.choice(["harm3d", "qtip4pf"])
        nat = 3 if pes == "qtip4pf" else rng.choice([1, 3])
        # one behaviour of the specification per group, interleaved
        per = []
        for k in range(ng):
            w = [o for o in rng.choice(walks(ctx, True, True, 3, 3, 25)) if o and o[0] not in ("exit", "drop", "cut", "status")]
            due = sum(o[0] == "pos" for o in w) - sum(o[0] == "recv" for o in w)
            per.append([list(o) for o in w] + [["recv"]] * due)
        ops = []
        idx = [0] * ng
        while any(idx[k] < len(per[k]) for k in range(ng)):
            k = rng.choice([k for k in range(ng) if idx[k] < len(per[k])])
            o = per[k][idx[k]]
            idx[k] += 1
            ops.append([o[0], k] + ([" a : 1 , "] if o[0] == "init" else [o[1]] if o[0] == "pos" else []))
        items.append(dict(lang=lang, pes=pes, nat=nat, g=g, ng=ng, ops=ops, ns=3, seed=rng.randrange(10**9), need=True, mode="mpi", exe=exe, name=rng.choice(["", "ff"])))
    res = vf.procmap(one_mpi, items, workers=3, timeout=600)
    jobs, traces = [], []
    for it, ts in zip(items, res):
        for t in ts:
            jobs.append(it)
            traces.append(t)
        ctx.count("conversations %s mpi" % it["lang"], len(ts))
    return jobs, traces


def one_mpi(it):
    d = vf.scratch("mpi_")
    st = drvlab.structures(np.random.RandomState(it["seed"] % 2**31), it["pes"], it["nat"], 3)
    L = drvlab.Lab(dict(it, frag=0, batch=1))
    L.st = st
    L.ref = [drvlab.analytic(it["pes"], p, h) for p, h in st]
    if L.ref[0] is None:
        L.ref = [drvlab.reference((it, s + 1)) for s in range(3)]
    json.dump(dict(it, structs=[(p.tolist(), h.tolist()) for p, h in st]), open(d + "/in.json", "w"))
    a = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", "1", sys.executable, os.path.join(vf.VERIF, "harness", "drvmpi.py"), d + "/in.json", d + "/out.json", ":", "-n", str(it["g"] * it["ng"])]
    if it["lang"] == "py":
        a += [sys.executable, os.path.join(vf.REPO, "drivers", "py", "driver.py"), "--mpi", "-g", str(it["g"]), "-m", "custom", "-P", os.path.join(vf.VERIF, "harness", "drvpes.py")]
        if it["name"]:
            a += ["--mpi-name", it["name"]]
    else:
        a += [it["exe"], "--mpi", "-g", str(it["g"])] + drvlab.F90_ARGS[it["pes"]]
        it["name"] = ""
    env = dict(os.environ, PYTHONPATH=vf.REPO, PYTHONDONTWRITEBYTECODE="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_base_warn_component_unused="0")
    left = True
    p = subprocess.Popen(a, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=open(d + "/err", "w"), start_new_session=True)
    try:
        p.wait(90)
    except subprocess.TimeoutExpired:
        left = False
        import signal

        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    if not os.path.exists(d + "/out.json"):
        err = open(d + "/err").read()[-400:]
        return [[dict(need=True, push=True), dict(e="stall", why="left=%s rc=%s %s" % (left, p.returncode, err))]]
    out = json.load(open(d + "/out.json"))
    traces = []
    roots = sorted(x[0] for x in out["groups"])
    # groups are contiguous, complete and announce their name
    ok = len(roots) == it["ng"] and all(x[1][0] == x[0] and x[1][1] == it["g"] and x[1][2:] == list(range(x[0], x[0] + it["g"])) and x[2] == it["name"] for x in out["groups"])
    for k in range(it["ng"]):
        t = [dict(need=True, push=True)]
        if not ok:
            t.append(dict(e="groups", got=out["groups"]))
        ans = [x for x in out["answers"] if x[0] == k]
        due = []
        for op in it["ops"]:
            if op[1] != k:
                continue
            if op[0] == "init":
                t.append(dict(e="init"))
            elif op[0] == "pos":
                t.append(dict(e="pos", s=op[2]))
                due.append(op[2])
            else:
                want = due.pop(0)
                _, a_, x = ans.pop(0)
                n = 10 + 3 * it["nat"]
                a_ = np.array(a_)
                x = bytes.fromhex(x)
                ex = []
                while len(x) >= 4:
                    m = int(np.frombuffer(x[:4], np.int32)[0])
                    ex.append(x[4 : 4 + m])
                    x = x[4 + m :]
                if len(a_) != n * len(want) or len(ex) != len(want) or x:
                    t.append(dict(e="sizes", got=[len(a_), len(ex), len(x)]))
                else:
                    a_ = a_.reshape(len(want), n)
                    t.append(L.ident(want, (a_[:, 0], a_[:, 1:-9], a_[:, -9:], ex)))
        t += [dict(e="exit"), dict(e="left" if left and p.returncode == 0 else "stayed")]
        traces.append(t)
    return traces
