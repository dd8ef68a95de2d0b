"""C09: however a run ends, RESTART describes a completed step boundary."""

import random

from harness import runlab
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of run control with exit requests at any point, checked with TLC; real simulations with counting movers are stopped at every instrumented point (exits from the main thread, another thread, signals, EXIT file, time limit, completion; handlers delayed against the main loop; two requests at once) and continued from RESTART; the recorded lives are validated against the specification with TLC"
NOTE = "every point of the first two steps for a set of configurations, random points beyond; interleavings of the exit handlers with the main loop are forced at the instrumented points"


def double(ctx):
    """two threads request the exit: one is halted at each line of the code it runs"""
    import contextlib
    import os
    import signal
    import sys
    import threading
    import io

    from ipi.utils import softexit as sx
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    out = []
    world = dict(nsys=1, movers=[1], sm=0, threads=False, total=1, safe=1, outs=[], fin=[], dts=[])
    k = 0
    while True:
        k += 1
        s = sx.Softexit()
        ev = [world]
        lock = threading.Lock()
        hit = [0]

        def req():
            with lock:
                ev.append(dict(e="request"))

        def handler():
            with lock:
                ev.append(dict(e="restart", b=dict(step=0, st=[[0]])))

        s.register_function(handler)
        cont, there = threading.Event(), threading.Event()

        def tracer(frame, event, arg):
            if frame.f_code.co_filename != sx.__file__:
                return None
            if event == "line":
                hit[0] += 1
                if hit[0] == k:
                    there.set()
                    cont.wait(5)
            return tracer

        def one(traced):
            if traced:
                sys.settrace(tracer)
            req()
            with contextlib.suppress(SystemExit):
                s.trigger(status="restartable", message="x")
            if traced:
                sys.settrace(None)
                there.set()

        with contextlib.redirect_stdout(io.StringIO()):
            a = threading.Thread(target=one, args=(True,), daemon=True)
            a.start()
            there.wait(5)
            b = threading.Thread(target=one, args=(False,), daemon=True)
            b.start()
            b.join(0.3)
            cont.set()
            a.join(5)
            b.join(5)
        ev.append(dict(e="exit"))
        out.append(ev)
        if hit[0] < k or k > 60:
            break
    r, prog = vf.validate_traces("RunTrace", runlab.TCFG, out)
    ctx.tlc_stats(r)
    for i, (t, p) in enumerate(zip(out, prog)):
        if p < len(t):
            ctx.violation("exit handlers when two threads request the exit, one of them halted at its line %d: %s" % (i + 1, t[p]), t)
        else:
            ctx.traces()
    ctx.count("points_of_double_requests", len(out))


def run(ctx):
    for c in runlab.WORLDS_Q if ctx.quick else runlab.WORLDS_T:
        ctx.tlc_stats(vf.must_tlc("RunMC", runlab.MCFG % c, timeout=1500))
    rng = random.Random(ctx.seed)
    jobs = []
    T = [dict(kind="prop", stride=1), dict(kind="chk", stride=1, overwrite=True)]
    base = [
        dict(nsys=2, movers=[2, 1], sm=1, nbeads=1, total=4, templates=T),
        dict(nsys=1, movers=[1], sm=0, nbeads=2, total=3, templates=[dict(kind="traj", stride=2, what="positions", format="xyz", bead=-1)]),
    ]
    for b in base:
        for how, delay, again in [("main", None, False), ("signal", None, False), ("thread", None, False), ("thread", 1, False), ("thread", 2, False), ("thread", 5, False), ("thread", 10**6, False), ("signal", None, True), ("thread", 10**6, True)]:
            npts = 40 if b["nsys"] == 2 else 20
            for at in range(npts):
                if ctx.quick and again and at % 4:
                    continue
                cfg = runlab.gencfg(rng, **b)
                plan = dict(at=at, how=how, delay=delay, again=again, nofiles=True)
                jobs.append((cfg, [plan, dict(nofiles=True)]))
        for how in ("exitfile", "time"):
            for at in range(0, 40, 6 if ctx.quick else 1):
                jobs.append((runlab.gencfg(rng, **b), [dict(at=at, how=how, nofiles=True), dict(nofiles=True)]))
    for _ in range(ctx.n(60, 1500)):
        cfg = runlab.gencfg(rng, safe=rng.choice([1, 1, 2, 3]), threads=rng.random() < 0.3)
        if rng.random() < 0.3:
            s = rng.randint(1, cfg["nsys"])
            cfg["fin"] = [[s, rng.randint(1, cfg["movers"][s - 1]), rng.randint(0, cfg["total"] - 1)]]
        plans = []
        for _ in range(rng.choice([1, 2, 3])):
            p = dict(at=rng.randint(0, 60), how=rng.choice(["main", "signal", "thread", "thread", "time"]), delay=rng.choice([None, 1, 3, 10**6]), nofiles=True)
            if cfg["threads"]:
                p["only"] = ["move", "smove", "store"]
                if p["how"] == "signal":
                    p["how"] = "thread"
            plans.append(p)
        jobs.append((cfg, plans + [dict(nofiles=True)]))
    # interactive runs in chunks, interrupted
    for _ in range(ctx.n(40, 400)):
        chunks = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))]
        cfg = runlab.gencfg(rng, total=sum(chunks), templates=T)
        jobs.append((cfg, [dict(at=rng.randint(0, 60), how=rng.choice(["thread", "thread", "main", "exitfile"]), delay=rng.choice([None, None, 2]), chunks=chunks, nofiles=True)]))
    traces, fired = runlab.check(ctx, jobs)
    for k, v in sorted(fired.items()):
        ctx.count("exits " + k, v)
    double(ctx)
    ctx.assumptions += ["an exit requested between the last record of a step and the next step may describe either boundary", "movers and multi-system motions are counters; forces come from the harmonic in-process driver"]
