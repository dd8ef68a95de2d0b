"""C05: MPI force fields.  Mpi.tla + instrumented communicator + MpiTrace."""

import json
import os
import random
import subprocess

from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the MPI world, dispatch and collection checked with TLC (safety and liveness); environment schedules simulated from it drive the real FFMPI/InterfaceMPI through an instrumented communicator, and every recorded conversation is validated against the specification with TLC"
NOTE = "the communicator is a stand-in for mpi4py with the same blocking and ordering rules (per-pair FIFO, any arrival order between workers); exhaustive on the specification for up to 3 workers, 2 force fields, 4 requests; the real interface is driven both call by call and with its own polling threads"

LAB = os.path.join(vf.VERIF, "harness", "mpilab.py")
INV = "INVARIANTS Disjoint OwnPool OneHolder HeldIsRunning InitFirst DoneByHolder\n"
CFG = "CONSTANTS CW=%d CF=%d CR=%d CB=%d\n"


def world(rng, consistent=True):
    nf = rng.choice([1, 1, 2, 2, 3])
    ng = rng.randint(nf, nf + rng.choice([0, 1, 2, 3]))
    ranks = list(range(1, 1 + ng + rng.choice([0, 0, 1, 2])))
    sizes = [1] * ng
    for _ in range(len(ranks) - ng):
        sizes[rng.randrange(ng)] += 1
    # groups of consecutive or scattered ranks
    if rng.random() < 0.4:
        rng.shuffle(ranks)
    groups, k = [], 0
    for i in range(ng):
        mem = ranks[k : k + sizes[i]]
        k += sizes[i]
        own = i + 1 if i < nf else rng.randint(1, nf)
        groups.append([mem[0], mem, own])
    if nf == 1:
        for g in groups:
            g[2] = rng.choice([0, 1])
    if not consistent:
        nf = max(nf, 2)
        kind = rng.choice(["untagged", "stranger", "missing"])
        if kind == "untagged":
            rng.choice(groups)[2] = 0
        elif kind == "stranger":
            rng.choice(groups)[2] = nf + 1
        else:
            for g in groups:
                g[2] = 1
    if rng.random() < 0.5:
        rng.shuffle(groups)
    return nf, groups


def scenario(rng, threaded, walk=None, consistent=True):
    nf, groups = world(rng, consistent)
    nr = rng.choice([3, 5, 8, 12])
    sc = dict(
        seed=rng.randrange(10**6),
        threaded=threaded,
        nf=nf,
        groups=groups,
        names=["alpha", "be ta", "gamma"][:nf],
        own=[1 if nf == 1 else g[2] for g in groups],
        batch=rng.choice([1, 1, 2, 3]),
        nr=nr,
        reqff=[rng.randint(1, nf) for _ in range(nr)],
        nat=[rng.choice([1, 2, 5]) for _ in range(nf)],
        offset=[rng.choice([0.0, 1.5, -0.25]) for _ in range(nf)],
        pars=[rng.choice([{}, {"alpha": 3}, {"p": 1, "q": 7}]) for _ in range(nf)],
        drain=rng.random() < 0.8,
    )
    if threaded:
        ids = list(range(1, nr + 1))
        rounds = []
        while ids:
            k = rng.randint(1, 4)
            rounds.append(ids[:k])
            ids = ids[k:]
        sc["rounds"] = rounds
    else:
        steps, r = [], 0
        nw = len(groups)
        if walk is not None:
            for a in walk:
                if a["op"] == "submit":
                    if r < nr:
                        r += 1
                        steps.append(["submit", r])
                elif a["op"] == "ANS":
                    steps.append(["ans", (a["w"] - 1) % nw + 1])
                elif a["op"] in ("INIT", "WORK", "COLLECT"):
                    steps.append(["poll", (a["w"] - 1) % nf + 1])
        else:
            for _ in range(rng.randint(5, 50)):
                x = rng.random()
                if x < 0.3 and r < nr:
                    r += 1
                    steps.append(["submit", r])
                elif x < 0.65:
                    steps.append(["poll", rng.randint(1, nf)])
                else:
                    steps.append(["ans", rng.randint(1, nw)])
        sc["steps"] = steps
    return sc


def walks(ctx, n):
    return vf.sim_walks("MpiMC", CFG % (3, 2, 5, 2) + "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", n, 60, seed=ctx.seed)


def run_lab(scs, workers=6):
    chunks = [[] for _ in range(workers)]
    for i, s in enumerate(scs):
        chunks[i % workers].append([i, s])
    res = {}

    def go(ch):
        if not ch:
            return
        e = dict(os.environ, PYTHONPATH=vf.REPO + ":" + vf.VERIF, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        d = vf.scratch("mpl_")
        p = subprocess.run([vf.PY, LAB], input=json.dumps(ch), capture_output=True, text=True, env=e, cwd=d, timeout=3000)
        n = 0
        for line in p.stdout.splitlines():
            if line.startswith("@@R "):
                i, r = json.loads(line[4:])
                res[i] = r
                n += 1
        if n != len(ch):
            err = (p.stdout + p.stderr)[-2500:]
            for i, _ in ch:
                res.setdefault(i, dict(crash=err, trace=[], why=[]))

    vf.pmap(go, chunks, workers)
    return [res[i] for i in range(len(scs))]


def run(ctx):
    # 1. the specification
    for c in [(2, 1, 3, 2), (2, 2, 3, 1), (3, 2, 4, 2)] + ctx.n([], [(3, 1, 4, 2), (3, 3, 4, 2), (4, 2, 4, 2)]):
        ctx.tlc_stats(vf.must_tlc("MpiMC", CFG % c + "SPECIFICATION Spec\nVIEW view\nCHECK_DEADLOCK FALSE\n" + INV + "PROPERTIES DoneStable NoWorkAfterExit\n", workers=4))
    for c in ctx.n([(2, 2, 2, 1)], [(2, 2, 2, 1), (2, 1, 2, 2), (2, 2, 3, 1)]):
        ctx.tlc_stats(vf.must_tlc("MpiMC", CFG % c + "SPECIFICATION FairSpec\nCHECK_DEADLOCK FALSE\nPROPERTIES AllAnswered AllTold\n", workers=4))
    # 2. the code
    rng = random.Random(ctx.seed)
    n = ctx.n(1, 8)
    scs = [scenario(rng, False, walk=w) for w in walks(ctx, 60 * n)[: 60 * n]]
    scs += [scenario(rng, False) for _ in range(120 * n)]
    scs += [scenario(rng, True) for _ in range(60 * n)]
    scs += [scenario(rng, rng.random() < 0.5, consistent=False) for _ in range(20 * n)]
    res = run_lab(scs)
    bad = [(s, r) for s, r in zip(scs, res) if r.get("hung") or r.get("crash") or r.get("error")]
    for s, r in bad[:3]:
        # a hang must be reproducible
        again = run_lab([s, s], 2)
        if all(a.get("hung") or a.get("crash") or a.get("error") for a in again):
            ctx.violation("the server did not survive the conversation", {"scenario": s, "result": dict(r, trace=r["trace"][-15:])})
    if ctx.viol:
        return
    good = [(s, r) for s, r in zip(scs, res) if not (r.get("hung") or r.get("crash") or r.get("error"))]
    trs = [r["trace"] for _, r in good]
    for k in range(0, len(trs), 150):
        tr, prog = vf.validate_traces("MpiTrace", "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", trs[k : k + 150])
        ctx.tlc_stats(tr)
        for j, t in enumerate(trs[k : k + 150]):
            if prog[j] < len(t):
                s, r = good[k + j]
                if s["threaded"] and any(e["e"] in ("stuck",) for e in t):
                    # slow machine? the same world must show it again
                    a = run_lab([s, s], 2)
                    if not all(any(e["e"] == "stuck" for e in x["trace"]) for x in a):
                        continue
                ctx.violation(
                    "the specification cannot explain event %d: %s" % (prog[j], json.dumps(t[prog[j]])),
                    {"scenario": s, "flagged": r["why"], "trace": t[max(0, prog[j] - 20) : prog[j] + 3]},
                )
            else:
                ctx.traces()
    ctx.sample({"world": good[0][0]["groups"], "trace": trs[0][:12]})
    ctx.count("threaded_runs", sum(1 for s in scs if s["threaded"]))
    ctx.count("inconsistent_worlds", 20 * n)
    ctx.assumptions += [
        "messages between one pair of ranks arrive in order, between different pairs in any order (MPI rules), through a stand-in communicator",
        "all structures of one force field have the same number of atoms when batching",
        "workers do not die (MPI aborts the whole job then)",
    ]
