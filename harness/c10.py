"""C10: one record per due step, every record current."""

import random

from harness import runlab
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of run control and the contents of all output files over several lives of a run, checked with TLC; real simulations with counting movers (every mix of strides, systems, beads, kinds of output, formats, flushing) are run, interrupted and continued, and the records and the final contents of every file are validated against the specification with TLC"
NOTE = "strides 1-5, up to 3 systems, 12 beads, 3 movers, 5 lives; every split point of a 6-step run"


def run(ctx):
    for c in runlab.WORLDS_Q[:4] if ctx.quick else runlab.WORLDS_T:
        ctx.tlc_stats(vf.must_tlc("RunMC", runlab.MCFG % c, timeout=1500))
    rng = random.Random(ctx.seed)
    jobs = []
    # every split point, for all strides
    total = 6
    for a in range(1, total):
        for b in range(a, total):
            if ctx.quick and (a * 7 + b + ctx.seed) % 3:
                continue
            cfg = runlab.gencfg(rng, nsys=rng.choice([1, 2]), total=total, sm=rng.choice([0, 1]))
            cfg["templates"] = [dict(kind="prop", stride=s, flush=rng.choice([0, 1, 3])) for s in (1, 2, 3)] + [runlab.template(rng) for _ in range(3)]
            plans = [dict(how="step", at=0, step=a)] + ([dict(how="step", at=0, step=b)] if b > a else [])
            jobs.append((cfg, plans + [{}] * (1 + (a % 2))))
    for _ in range(ctx.n(110, 2000)):
        cfg = runlab.gencfg(rng, total=rng.choice([1, 2, 3, 5, 8, 11]), threads=rng.random() < 0.25, nbeads=rng.choice([1, 2, 3, 4, 12]))
        cfg["templates"] = [runlab.template(rng) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
        if rng.random() < 0.2:
            s = rng.randint(1, cfg["nsys"])
            cfg["fin"] = [[s, rng.randint(1, cfg["movers"][s - 1]), rng.randint(0, cfg["total"] - 1)]]
        plans = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            p = dict(at=rng.randint(0, 60), how=rng.choice(["main", "signal", "thread", "exitfile", "time"]), delay=None, only=["move", "smove"])
            if cfg["threads"]:
                p["how"] = rng.choice(["exitfile", "time", "thread"])
            plans.append(p)
        jobs.append((cfg, plans + [{}] * (1 + len(jobs) % 2)))
    traces, fired = runlab.check(ctx, jobs)
    for k, v in sorted(fired.items()):
        ctx.count("interruptions " + k, v)
    torn(ctx)
    ctx.assumptions += [
        "interruptions are exit requests; a process which is killed leaves the records since the checkpoint it is continued from",
        "records are not duplicated when the state is saved at every step (safe_stride 1, the default)",
        "systems have distinct prefixes and outputs have distinct names",
        "the step in which a motion reports completion ends the run and is not recorded",
    ]


def torn(ctx):
    """an exit request which is served while the records of a step are being written"""
    T = [dict(kind="prop", stride=1, flush=1)]
    cfg = runlab.gencfg(random.Random(1), nsys=2, movers=[1, 1], sm=0, nbeads=1, total=3, templates=T, prefix="sim", multi1=False)
    jobs = [(dict(cfg), [dict(at=at, how=how, only=["out", "prop"]), {}]) for at in (24, 25, 26, 27, 28, 30) for how in ("main", "thread")]
    for t in runlab.run(jobs):
        t = t[1:]
        f = [e for e in t if e["e"] == "files"]
        if len(f) < 2:
            ctx.violation("the run could not be continued", [e for e in t if e["e"] not in ("move", "rec")][-5:])
            continue
        for lab in f[-1]["labels"]:
            good = [x for x in lab if x >= 0]
            if set(range(4)) - set(good) and not any(x < 0 for x in lab):
                ctx.violation("records missing after an exit during output", dict(labels=lab))
            elif lab != [0, 1, 2, 3]:
                ctx.violation("records of the interrupted step are repeated", dict(labels=lab), key="exit-during-output")
        ctx.count("exits_during_output")
