"""C11: existing output is never destroyed."""

import json
import os
import random
import re
import sys

from harness import runlab
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the directory in which runs are started, continued and killed, checked with TLC (including that its one-step outcome relation is implied by the fine-grained actions); sequences of real fresh, continued and killed runs in directories with files of all relevant names are validated against that relation with TLC; a process is killed at every line of the code that writes a checkpoint"
NOTE = "sequences of up to 5 runs over arbitrary sets of existing files; kills at every line of the checkpoint code for first, later, overwriting and numbered checkpoints"


def tree():
    out = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            n = os.path.relpath(os.path.join(d, f), ".")
            if n in ("EXIT", "resume.xml"):
                continue
            out[n] = open(n, errors="replace").read()
    return out


class Dir:
    """contents of a directory as sequences of the processes which wrote them"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.now = {}
        self.ids = {}
        self.nid = 1000
        self.junk = {}

    def visible(self):
        """without what a killed process left of a file it had not completed"""
        return {n: v for n, v in tree().items() if n not in self.junk and (n in self.now or v not in self.junk.values())}

    def classify(self, chk, pid, begun=()):
        """new state of the directory after process pid; chk: names of checkpoints; begun: outputs it started anew"""
        t = self.visible()
        known = {v: self.ids[n] for n, v in self.now.items()}
        ids = {}
        moved = {i: m for m, i in getattr(self, "ino", {}).items()}
        for n, v in sorted(t.items()):
            was = moved.get(os.stat(n).st_ino)
            if n in begun and (n not in self.now or self.ino[n] != os.stat(n).st_ino):
                ids[n] = [pid]
            elif n in self.now and self.now[n] == v and not (n in chk and pid):
                ids[n] = self.ids[n]
            elif n in chk and pid:
                s = runlab.snapshot(self.cfg, n)
                ids[n] = [pid] if s["step"] >= 0 else [-pid]
                if v in known and n not in self.now:
                    ids[n] = [pid]
            elif n in self.now and v.startswith(self.now[n]) and pid:
                ids[n] = self.ids[n] + [pid]
            elif n not in self.now and was is not None and self.now[was] == v:
                ids[n] = self.ids[was]
            elif v in known:
                ids[n] = known[v]
            elif pid:
                ids[n] = [pid]
            else:
                self.nid += 1
                ids[n] = [self.nid]
        self.ino = {n: os.stat(n).st_ino for n in t}
        self.now, self.ids = t, ids
        return [dict(n=n, c=c) for n, c in sorted(ids.items())]


def names(cfg):
    T, C, P = [], ["RESTART"], []
    for j, t, i in runlab.outputs_of(cfg):
        f = runlab.files_of(cfg, j, t, i)
        if t["kind"] != "chk":
            T += f
        elif t["overwrite"]:
            C += f
        else:
            P += f
    return T, C, P


def best(cfg):
    """latest complete checkpoint there is"""
    b = -1
    for n in tree():
        if "RESTART" in n or re.search(r"c\d+", os.path.basename(n)):
            s = runlab.snapshot(cfg, n)
            if s["step"] >= 0 and all(all(x == s["step"] for x in y) for y in s["st"]):
                b = max(b, s["step"])
    return b


def loadable(cfg):
    r = []
    for n in tree():
        if "RESTART" in n or re.search(r"c\d+", os.path.basename(n)):
            s = runlab.snapshot(cfg, n)
            if s["step"] >= 0:
                r.append((s["step"], n))
    return [n for s, n in sorted(r)]


def session(arg):
    cfg, plans, seed, d = arg
    rng = random.Random(seed)
    os.makedirs(d)
    os.chdir(d)
    pre = os.path.dirname(cfg.get("prefix", ""))
    if pre:
        for x in [pre] + ["s%d_%s" % (i, pre) for i in range(cfg["nsys"])]:
            os.makedirs(x, exist_ok=True)
    T, C, P = names(cfg)
    if cfg["old"]:
        for n in T + C + [p + "_%d" % i for p in P for i in range(3)] + ["other.txt", "sim", "sim.out"]:
            for m in [n] + [os.path.join(os.path.dirname(n), "#%s#%d#" % (os.path.basename(n), i)) for i in range(3)]:
                if rng.random() < cfg["old"] and not os.path.isdir(m):
                    with open(m, "w") as f:
                        f.write("old data %s %d\n" % (m, rng.randint(0, 10**9)))
    D = Dir(cfg)
    trace = [dict(dir=D.classify([], 0))]
    clean = not cfg["old"]
    for n, plan in enumerate(plans):
        src = None
        if not plan.get("fresh"):
            L = [x for x in loadable(cfg) if not x.endswith(".new")]
            L = ["RESTART"] if "RESTART" in L and plan.get("restart") else L
            if L:
                src = L[-1] if plan.get("latest", True) else rng.choice(L)
                tx = open(src).read()
                with open("resume.xml", "w") as f:
                    f.write(re.sub(r"<total_time[^>]*>[^<]*</total_time>", "", tx))
        if not cfg.get("fixed") and src is not None and clean and src != "RESTART":
            clean = False
        step0 = runlab.snapshot(cfg, "resume.xml")["step"] if src else 0
        r = runlab.fork(life, (cfg, "resume.xml" if src else None, plan, n))
        killed = r.get("error") == "no answer"
        if "error" in r and not killed:
            trace.append(dict(e="crashed", error=r["error"], dir=[]))
            break
        if not killed and any(x["e"] in ("refused", "died", "hung") for x in r["log"]):
            if any(x["e"] == "refused" for x in r["log"]):
                continue
            trace.append(dict(e="crashed", error=json.dumps([x for x in r["log"] if x["e"] != "move"][-3:]), dir=[]))
            break
        pid = n + 1
        t = D.visible()
        if killed:
            D.junk.update({x: t[x] for x in t if x not in D.now and x not in T + C and not any(re.fullmatch(re.escape(p) + r"_\d+", x) for p in P) and t[x] not in D.now.values()})
        N = [x for p in P for x in t if re.fullmatch(re.escape(p) + r"_\d+", x) and (D.now.get(x) != t[x] or D.ino.get(x) != os.stat(x).st_ino)]
        wrote = {x for x in C if x in t and D.now.get(x) != t[x]}
        chk = set(N) | (set(C) if not killed else wrote)
        fresh = step0 == 0
        if not killed:
            # a checkpoint which did not become due is not written
            due = {"RESTART"} | {runlab.files_of(cfg, j, o, i)[0] for j, o, i in runlab.outputs_of(cfg) if o["kind"] == "chk" and o["overwrite"] and (step0 == 0 or any(s % o["stride"] == 0 for s in range(step0 + 1, lastrec(r, o, step0) + 1)))}
            chk = set(N) | (due & set(C))
            ev = dict(e="run", fresh=fresh, T=T, C=sorted(due & set(C)), N=N, id=pid, clean=bool(clean and not fresh), dir=D.classify(chk, pid, T if fresh else ()), done=-1)
        else:
            clean = False
            ev = dict(e="killed", fresh=fresh, id=pid, dir=D.classify(chk if plan.get("classify") else set(), pid), done=plan.get("done", -1))
        ev["best"] = best(cfg)
        if not killed:
            ev["done"] = max([x["b"]["step"] for x in r["log"] if x["e"] == "restart"] or [-1])
        trace.append(ev)
        if fresh and n > 0:
            clean = False  # numbers of another history are in use
    return trace


def lastrec(r, o, step0):
    s = step0
    for x in r["log"]:
        if x["e"] == "rec":
            s = max(s, x["l"])
        elif x["e"] in ("move", "smove"):
            pass
    return s


def life(arg):
    """as runlab.life, but able to kill itself while a checkpoint is written"""
    cfg, src, plan, seq = arg
    if "kill" in plan:
        import ipi.engine.outputs as eo
        import ipi.utils.io as uio

        k, line = plan["kill"]
        files = (eo.__file__, uio.__file__)
        orig = eo.CheckpointOutput.write
        calls = [0]

        def write(self, *a, **ka):
            calls[0] += 1
            if calls[0] - 1 != k:
                return orig(self, *a, **ka)
            hit = [0]

            def tr(frame, event, arg):
                if frame.f_code.co_filename not in files:
                    return None
                if event == "line":
                    hit[0] += 1
                    if hit[0] == line:
                        if plan.get("flush"):
                            for f in list(frame.f_locals.values()):
                                if hasattr(f, "flush") and hasattr(f, "write"):
                                    f.flush()
                        os._exit(9)
                return tr

            sys.settrace(tr)
            try:
                return orig(self, *a, **ka)
            finally:
                sys.settrace(None)

        eo.CheckpointOutput.write = write
    return runlab.life(arg)


def opens(arg):
    """outputs which motions ask for: OutputMaker"""
    seed, d = arg
    from ipi.engine.outputs import OutputMaker
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    rng = random.Random(seed)
    os.makedirs(d)
    os.chdir(d)
    os.mkdir("sub")
    pre = rng.choice(["", "x", "sub/x", "x.y"])
    files = [("%s." % pre if pre else "") + f for f in ("a", "b.dat")]
    for f in files:
        for m in [f] + [os.path.join(os.path.dirname(f), "#%s#%d#" % (os.path.basename(f), i)) for i in range(4)]:
            if rng.random() < 0.5:
                open(m, "w").write("old %s\n" % m)
    D = Dir(None)
    trace = [dict(dir=D.classify([], 0))]
    for n in range(rng.randint(1, 5)):
        fs = rng.random() < 0.5
        om = OutputMaker(pre, fs)
        f = rng.choice(("a", "b.dat"))
        mode = rng.choice([None, None, "w", "wb", "a"])
        o = om.get_output(f, mode) if mode else om.get_output(f)
        x = "run %d wrote this\n" % n
        o.write(x.encode() if mode == "wb" else x)
        if rng.random() < 0.5:
            o.force_flush()
        o.close_stream()
        trace.append(dict(e="opened", fresh=(fs if mode is None else mode[0] == "w"), T=[("%s." % pre if pre else "") + f], id=n + 1, dir=D.classify([], n + 1, [("%s." % pre if pre else "") + f] if (fs if mode is None else mode[0] == "w") else ()), done=-1, best=-1))
    return trace


TCFG = runlab.TCFG
MCFG = "CONSTANTS MaxProc=%d Steps=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Preserved Loadable Refines KilledOK\n"


def validate(ctx, traces, infos):
    r, prog = vf.validate_traces("DirTrace", TCFG, traces)
    ctx.tlc_stats(r)
    for t, p, i in zip(traces, prog, infos):
        if p < len(t):
            before = {x["n"]: x["c"] for x in t[p - 1]["dir"]}
            after = {x["n"]: x["c"] for x in t[p].get("dir", [])}
            ctx.violation("directory after process %d of a sequence is not a possible outcome" % p, dict(info=i, event={a: b for a, b in t[p].items() if a != "dir"}, changed={n: [before.get(n), after.get(n)] for n in sorted(set(before) | set(after)) if before.get(n) != after.get(n)}))
        else:
            ctx.traces()


def run(ctx):
    for c in [(2, 2)] if ctx.quick else [(2, 2), (3, 1), (3, 2)]:
        ctx.tlc_stats(vf.must_tlc("DirMC", MCFG % c, timeout=1500))
    import ipi.engine.simulation, ipi.inputs.simulation, ipi.scripting.interactive  # noqa

    rng = random.Random(ctx.seed)
    base = vf.scratch("dir_")
    jobs = []
    for _ in range(ctx.n(60, 800)):
        cfg = runlab.gencfg(rng, nsys=rng.choice([1, 2]), nbeads=rng.choice([1, 2]), total=rng.choice([1, 2, 4]), prefix=rng.choice(["sim", "", "out/sim", "a/b.c"]))
        cfg["templates"] = [runlab.template(rng) for _ in range(rng.choice([1, 2, 3]))] + [dict(kind="chk", stride=rng.choice([1, 2]), overwrite=rng.random() < 0.5)]
        runlab.fix_templates(cfg)
        cfg["old"] = rng.choice([0, 0, 0.3, 0.8])
        plans = []
        for k in range(rng.choice([1, 2, 3, 4])):
            p = dict(fresh=k == 0 or rng.random() < 0.3, restart=rng.random() < 0.8, latest=True, nofiles=True)
            if rng.random() < 0.6:
                p.update(how=rng.choice(["main", "exitfile", "thread", "signal"]), at=rng.randint(0, 40), delay=None, only=["move", "smove"])
            plans.append(p)
        jobs.append((cfg, plans))
    # killed while writing a checkpoint
    nkill = 0
    kills = []
    for over in (True, False):
        for k in (0, 1, 2) if not ctx.quick else (0, 2):
            for line in range(1, 60):
                for flush in (False, True):
                    if flush and ctx.quick and line % 2:
                        continue
                    cfg = runlab.gencfg(rng, nsys=1, movers=[1], sm=0, nbeads=1, total=4, prefix="sim", multi1=False, templates=[dict(kind="chk", stride=1, overwrite=over)])
                    cfg["old"] = 0.5 if line % 2 else 0
                    kills.append((cfg, [dict(fresh=True, kill=(k, line), flush=flush, done=k - 1, nofiles=True), dict(fresh=False, nofiles=True)]))
    items = [(c, p, ctx.seed * 1000 + i, os.path.join(base, "%d" % i)) for i, (c, p) in enumerate(jobs + kills)]
    tr = vf.procmap(session, items, workers=8, timeout=600)
    nkill = sum(1 for t in tr for e in t[1:] if e["e"] == "killed")
    ctx.count("processes_killed_while_writing_a_checkpoint", nkill)
    ctx.count("processes", sum(len(t) - 1 for t in tr))
    validate(ctx, tr, [dict(cfg=i[0], plans=i[1]) for i in items])
    it = [(ctx.seed * 7919 + i, os.path.join(base, "o%d" % i)) for i in range(ctx.n(100, 1500))]
    tr2 = vf.procmap(opens, it, workers=8, timeout=300)
    validate(ctx, tr2, it)
    ctx.sample(dict(cfg=items[0][0], plans=items[0][1], trace=[json.dumps(x)[:400] for x in tr[0][:4]]))
    if nkill < 40:
        raise vf.MachineryError("only %d processes were killed while they wrote a checkpoint" % nkill)
    ctx.assumptions += [
        "a killed process loses what it has not handed to the operating system; the machine itself does not crash",
        "only the outputs of i-PI itself are meant, not files written by external libraries such as PLUMED",
    ]
