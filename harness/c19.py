"""C19: exactly the requested steps, each by every mover in order."""

import random

from harness import runlab
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of run control (steps, lists of movers, multi-system motions, completion, chunks, continuation), checked with TLC; real simulations with counting movers over all compositions of systems and motions, totals, chunkings, continuation points and completing movers are run and the recorded calls are validated against the specification with TLC"
NOTE = "up to 3 systems, 3 movers each, 2 multi-system motions, 9 steps, 4 chunks, completion at every (system, mover, step) of small worlds, serial and threaded"


def run(ctx):
    for c in runlab.WORLDS_Q[:4] if ctx.quick else runlab.WORLDS_T:
        ctx.tlc_stats(vf.must_tlc("RunMC", runlab.MCFG % c, timeout=1500))
    rng = random.Random(ctx.seed)
    jobs = []
    T = [dict(kind="prop", stride=1), dict(kind="chk", stride=1, overwrite=True)]
    # completion of every mover at every step
    for threads in (False, True):
        for movers in ([2, 2], [1, 3], [1]):
            for s in range(1, len(movers) + 1):
                for m in range(1, movers[s - 1] + 1):
                    for at in range(3):
                        if ctx.quick and threads and (s + m + at) % 2:
                            continue
                        cfg = runlab.gencfg(rng, nsys=len(movers), movers=movers, sm=rng.choice([0, 1, 2]), total=3, threads=threads, templates=T, fin=[[s, m, at]], nbeads=1)
                        jobs.append((cfg, [{}]))
    # totals, continuation
    for total in range(0, 6):
        for at in range(1, total + 1):
            cfg = runlab.gencfg(rng, total=total, templates=T, threads=rng.random() < 0.3)
            jobs.append((cfg, [dict(how="step", at=0, step=at), {}, {}]))
        if total:
            jobs.append((runlab.gencfg(rng, total=total, templates=T, threads=rng.random() < 0.3), [{}, {}]))
    for _ in range(ctx.n(90, 2000)):
        cfg = runlab.gencfg(rng, total=rng.choice([1, 2, 3, 5, 9]), threads=rng.random() < 0.35)
        if rng.random() < 0.4:
            cfg["dts"] = [[rng.randint(1, 40) for _ in range(n)] for n in cfg["movers"]]
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 2])):
                s = rng.randint(1, cfg["nsys"])
                cfg["fin"].append([s, rng.randint(1, cfg["movers"][s - 1]), rng.randint(0, cfg["total"] - 1)])
        if rng.random() < 0.5:
            left, ch = cfg["total"], []
            while left:
                ch.append(rng.randint(1, left))
                left -= ch[-1]
            jobs.append((cfg, [dict(chunks=ch)]))
        else:
            plans = [dict(at=rng.randint(0, 60), how=rng.choice(["exitfile", "time", "step"]), step=rng.randint(1, 9), only=["move", "smove"]) for _ in range(rng.choice([0, 1, 2]))]
            jobs.append((cfg, plans + [{}]))
    traces, fired = runlab.check(ctx, jobs)
    ctx.count("moves", sum(1 for t in traces for e in t[1:] if e["e"] in ("move", "smove")))
    ctx.count("completions", sum(1 for t in traces for e in t[1:] if e["e"] == "status" and e["finished"]))
    ctx.count("chunks", sum(1 for t in traces for e in t[1:] if e["e"] == "paused"))
    ctx.assumptions += ["movers and multi-system motions are counters with the time steps of real motions", "the step in which a motion reports completion ends the run: the other systems complete it, the multi-system motion is not applied and it is not recorded"]
