"""Campaigns of scripted-client scenarios against the real socket server and
validation of the recorded traces with SocketTrace.tla (used by C01 and C02)."""

import json
import os
import subprocess
import threading

from lib import vf

LAB = os.path.join(vf.VERIF, "harness", "socklab.py")
KEEP = {"e", "c", "r", "id", "ok", "b", "s", "tag", "k", "sockgone", "shmgone"}


def model_cfg(nc, nr, batch, piped, timeouts, faults, always, body):
    t = lambda b: "TRUE" if b else "FALSE"
    return (
        "CONSTANTS NC=%d NR=%d Batch=%d Piped=%s Timeouts=%s MaxFaults=%d Always=%s\n"
        % (nc, nr, batch, t(piped), t(timeouts), faults, t(always))
        + body
    )


SAFETY = """SPECIFICATION Spec
VIEW view
INVARIANTS TypeOK OneHolder AskOnlyHolders
PROPERTIES OwnResult Final QuietAfterExit
CHECK_DEADLOCK FALSE
"""
LIVE = """SPECIFICATION FairSpec
CONSTRAINT ReliableOK
PROPERTIES Answered
CHECK_DEADLOCK FALSE
"""


def check_model(ctx, thorough):
    jobs = []
    for piped in (False, True):
        for to in (False, True):
            jobs.append(("safe", model_cfg(2, 2, 1, piped, to, 2, False, SAFETY)))
    jobs.append(("safe", model_cfg(2, 2, 1, True, False, 1, True, SAFETY)))
    jobs.append(("safe", model_cfg(2, 2, 2, True, False, 1, False, SAFETY)))
    for piped in (False, True):
        jobs.append(("live", model_cfg(2, 1, 1, piped, True, 1, False, LIVE)))
    if thorough:
        jobs.append(("safe", model_cfg(2, 3, 1, True, False, 1, False, SAFETY)))
        jobs.append(("safe", model_cfg(3, 2, 1, True, False, 1, False, SAFETY)))
        jobs.append(("live", model_cfg(2, 2, 1, False, False, 1, False, LIVE)))
        jobs.append(("live", model_cfg(2, 2, 1, True, False, 1, False, LIVE)))
    rs = vf.pmap(
        lambda j: vf.must_tlc("Socket", j[1], workers=2, timeout=1500, heap="4g"), jobs, 4
    )
    for r in rs:
        ctx.tlc_stats(r)


def run_scenarios(scs, workers=8, timeout=600):
    """Returns results in order; a scenario that could not be run is None."""
    res = [None] * len(scs)
    err = [""]
    nbad = [0]
    lock = threading.Lock()
    todo = list(range(len(scs)))
    todo.reverse()
    env = dict(os.environ)
    env.update(
        PYTHONPATH=vf.REPO + ":" + vf.VERIF,
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )

    def work():
        while True:
            with lock:
                if not todo:
                    return
                mine = [todo.pop() for _ in range(min(6, len(todo)))]
            while mine:
                p = subprocess.Popen(
                    [vf.PY, LAB],
                    stdin=subprocess.PIPE,
                    stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE,
                    text=True,
                    env=env,
                )
                try:
                    out, er = p.communicate(json.dumps([[i, scs[i]] for i in mine]), timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    out, er = p.communicate()
                got = []
                for line in out.splitlines():
                    if line.startswith("@@R "):
                        i, r = json.loads(line[4:])
                        r["stderr"] = ""
                        res[i] = r
                        got.append(i)
                if got and (res[got[-1]]["stuck"] or res[got[-1]].get("hung")):
                    res[got[-1]]["stderr"] = er[-2000:]
                rest = [i for i in mine if i not in got]
                if not got:
                    # the process died or hung in the first scenario
                    err[0] = er[-3000:]
                    res[rest[0]] = {"crash": er[-3000:], "stuck": [], "trace": [], "rep": []}
                    rest = rest[1:]
                with lock:
                    nbad[0] += sum(1 for i in mine if failed(res[i]))
                    if nbad[0] >= 3:
                        # enough to decide: do not wait for the others
                        for i in todo + rest:
                            res[i] = {"skipped": True}
                        todo.clear()
                        return
                mine = rest

    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def failed(r):
    return r is not None and "skipped" not in r and ("crash" in r or bool(r["stuck"]) or bool(r.get("hung")))


def group_key(sc):
    return (sc.get("batch", 1), bool(sc["consolidate"]), sc.get("timeout", 0.0) > 0)


TRACE_BODY = """SPECIFICATION TSpec
CONSTRAINT Track
VIEW tview
INVARIANTS TypeOK OneHolder AskOnlyHolders
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""


def validate(ctx, scs, res):
    groups = {}
    for i, r in enumerate(res):
        if r is None or "skipped" in r or failed(r):
            continue
        groups.setdefault(group_key(scs[i]), []).append(i)
    jobs = []
    for g, idx in groups.items():
        for a in range(0, len(idx), 40):
            jobs.append((g, idx[a : a + 40]))
    bad = []

    def one(job):
        g, idx = job
        trs = []
        nc = nr = 1
        for i in idx:
            r = res[i]
            t = [{"e": "cfg", "rep": r["rep"], "early": scs[i].get("early_stop") is not None}]
            for e in r["trace"]:
                t.append({k: v for k, v in e.items() if k in KEEP})
            trs.append(t)
            nc = max([nc] + [e["c"] for e in t if "c" in e])
            nr = max(nr, len(r["rep"]))
        cfg = model_cfg(nc, nr, g[0], g[1], g[2], 99, True, TRACE_BODY)
        return idx, trs, vf.validate_traces("SocketTrace", cfg, trs, timeout=900)

    for idx, trs, (r, prog) in vf.pmap(one, jobs, 6):
        ctx.tlc_stats(r)
        if prog is None:
            bad.append((idx[0], "invariant %s violated" % r.violated, r.out[-1500:]))
            continue
        ctx.traces(len(idx))
        for i, t, p in zip(idx, trs, prog):
            if p < len(t):
                bad.append((i, "the specification cannot explain event %d: %s" % (p, json.dumps(t[p])), t[max(0, p - 25) : p + 3]))
    return bad


def campaign(ctx, scs):
    """Runs the scenarios and reports everything that is not explained by the
    specification."""
    res = [None] * len(scs)
    todo = list(range(len(scs)))
    for _ in range(3):
        part = run_scenarios([scs[i] for i in todo])
        for i, r in zip(todo, part):
            res[i] = r
        confirm(ctx, scs, res)
        todo = [i for i in todo if "skipped" in res[i]]
        if ctx.viol or not todo:
            break
    for i, what, tail in validate(ctx, scs, res):
        why = [e for e in res[i]["trace"] if e.get("ok") is False]
        ctx.violation(what, {"scenario": scs[i], "flagged": why[:3], "trace": tail})
    ctx.cov["scenarios"] = sum(1 for r in res if "skipped" not in r)
    return res


def confirm(ctx, scs, res):
    retry = []
    for i, r in enumerate(res):
        if r is None:
            raise vf.MachineryError("scenario %d was not run" % i)
        if failed(r):
            retry.append(i)
        if r.get("laberr"):
            raise vf.MachineryError("scripted client failed in %r: %s" % (scs[i], r["laberr"][0]))
    for i in retry:
        if ctx.viol:
            break
        # time limits are involved: only what happens again, with more time and
        # nothing else running, counts
        sc = dict(scs[i], deadline=30)
        again = None
        for _ in range(3):
            again = run_scenarios([sc], workers=1)[0]
            if failed(again):
                break
        else:
            res[i] = again
            continue
        what = (
            "the server process failed"
            if "crash" in again
            else ("a request was never answered although a working client was connected" if again["stuck"] else "closing the interface did not end")
        )
        ctx.violation(
            what,
            {
                "scenario": sc,
                "stuck": again.get("stuck"),
                "poll_thread_alive": again.get("poll_alive"),
                "trace": again["trace"][-30:],
                "stderr": again.get("crash", again.get("stderr")),
            },
        )


# ------------------------------------------------------------ scenarios
CONFIGS = [
    ("unix", True, 1),
    ("unix", False, 1),
    ("inet", True, 1),
    ("inet", False, 1),
    ("shm", True, 1),
    ("shm", False, 1),
    ("unix", True, 2),
    ("inet", True, 3),
    ("shm", True, 2),
]


def base(cfg, rng, **k):
    mode, cons, batch = cfg
    sc = dict(
        mode=mode,
        consolidate=cons,
        batch=batch,
        nat=rng.choice([1, 2, 5]),
        offset=rng.choice([0.0, 2.5, -1.25]),
        pbc=rng.random() < 0.3,
        pars=rng.random() < 0.7,
        match=rng.choice(["auto", "auto", "any"]),
        maxconn=8,
        timeout=0.0,
        requests=[[0, 1, 2], [0, 1, 2]],
    )
    if sc["nat"] > 1 and rng.random() < 0.4:
        sc["active"] = [0] if sc["nat"] == 2 else [1, 3]
    sc.update(k)
    return sc


def extra(rng):
    return rng.choice(["none", "text", "json", "utf8", "long"])


POINTS = [
    ("connect", {}),
    ("status", {}),
    ("txREADY", {}),
    ("txNEEDINIT", {"init": "first"}),
    ("init", {"init": "first"}),
    ("init", {"init": "always"}),
    ("posdata_part", {}),
    ("posdata", {}),
    ("txHAVEDATA", {}),
    ("getforce", {}),
    ("reply_part", {"frac": 0.3}),
    ("reply_part", {"edge": "header"}),
    ("reply_part", {"edge": "fixed", "extra": "json"}),
    ("reply_part", {"edge": "extra_len", "extra": "json"}),
    ("reply_part", {"edge": "extra_mid", "extra": "json"}),
    ("replied", {}),
]


def fault_enumeration(rng, configs=CONFIGS, occ=(1, 2)):
    out = []
    for cfg in configs:
        for pt, opt in POINTS:
            if pt == "txHAVEDATA" and cfg[1]:
                continue
            for n in occ:
                f = {"at": pt, "n": n, "kind": "close"}
                if cfg[0] == "inet" and rng.random() < 0.5:
                    f["kind"] = "reset"
                for k in ("frac", "edge"):
                    if k in opt:
                        f[k] = opt[k]
                cl = {
                    "faults": [f],
                    "init": opt.get("init", rng.choice(["no", "no", "first", "always"])),
                    "extra": opt.get("extra", extra(rng)),
                    "reconnect": rng.random() < 0.5,
                }
                if pt == "connect" and n > 1:
                    # dies on each of its first connections
                    cl["faults"] = [dict(f, n=1, conn=0), dict(f, n=1, conn=1)]
                    cl["reconnect"] = True
                if pt == "txREADY" and cl["init"] != "no" and n == 1:
                    cl["init"] = "no"
                if pt == "txNEEDINIT" and n > 1:
                    cl["init"] = "always"
                good = {
                    "delay": rng.choice([0.0, 0.02, 0.06]),
                    "init": rng.choice(["no", "first", "always"]),
                    "extra": extra(rng),
                    "compute": rng.choice([0.0, 0.0, 0.005]),
                }
                cls = [cl, good]
                rng.shuffle(cls)
                out.append(base(cfg, rng, clients=cls))
    return out


def hang_enumeration(rng, configs=CONFIGS, few=False):
    out = []
    for cfg in configs:
        pts = ["getforce", "reply_part"]
        if not cfg[1]:
            pts = ["getforce", "reply_part", "posdata"]
        for pt in pts:
            f = {"at": pt, "n": rng.choice([1, 2]), "kind": "hang", "frac": 0.4}
            if pt == "reply_part" and cfg[0] == "shm":
                f["frac"] = 0.8
            cls = [
                {"faults": [f], "extra": "json", "reconnect": rng.random() < 0.5},
                {"delay": 0.03, "extra": extra(rng)},
            ]
            if rng.random() < 0.5:
                cls.append({"faults": [dict(f)], "delay": 0.01, "reconnect": False})
            out.append(base(cfg, rng, clients=cls, timeout=0.6, requests=[[0, 1, 2], [0, 1]]))
    return out


def healthy(rng, n, configs=CONFIGS):
    out = []
    for i in range(n):
        cfg = configs[i % len(configs)]
        nc = rng.choice([1, 2, 3, 4])
        cls = []
        for _ in range(nc):
            cls.append(
                {
                    "delay": rng.choice([0.0, 0.0, 0.02, 0.1]),
                    "init": rng.choice(["no", "first", "always"]),
                    "extra": extra(rng),
                    "compute": rng.choice([0.0, 0.003, 0.02, 0.08]),
                    "chunks": rng.choice([0, 0, 3]),
                    "attach": rng.choice([0.0, 0.02, 0.1]),
                }
            )
        reqs = []
        for _ in range(rng.choice([2, 3])):
            ph = list(range(rng.choice([1, 2, 4, 5])))
            if rng.random() < 0.3:
                ph = ph + [0]
            reqs.append(ph)
        out.append(base(cfg, rng, clients=cls, requests=reqs))
    return out


def early_stop(rng, n, configs=CONFIGS):
    """The interface is closed while clients are computing."""
    out = []
    for i in range(n):
        cfg = configs[i % len(configs)]
        cls = [
            {"init": rng.choice(["no", "first", "always"]), "compute": 0.4, "slow": {} if cfg[1] else {"posdata": 0.4}, "extra": extra(rng)}
            for _ in range(rng.choice([1, 2, 3]))
        ]
        out.append(base(cfg, rng, clients=cls, requests=[[0, 1, 2]], early_stop=0.2))
    return out


def layout(rng, n, configs=CONFIGS):
    """Sizes, active sets, folding, parameter strings, initialisation."""
    out = []
    for i in range(n):
        cfg = configs[i % len(configs)]
        nat = rng.choice([1, 2, 3, 4, 7, 64, 1500])
        cls = [{"init": m, "extra": extra(rng), "compute": 0.002} for m in rng.sample(["no", "first", "always"], rng.choice([1, 2, 3]))]
        ids = rng.sample(range(0, 400), 4) if rng.random() < 0.3 else [0, 1, 2, 3]
        k = {}
        if nat > 2 and rng.random() < 0.6:
            k["active"] = sorted(rng.sample(range(nat), rng.choice([1, 2])))
        out.append(base(cfg, rng, clients=cls, nat=nat, pbc=rng.random() < 0.5, pars=rng.random() < 0.5, requests=[ids[: rng.choice([1, 3, 4])], ids], **k))
        if "active" not in k:
            out[-1].pop("active", None)
    return out


def stalled(rng, configs=CONFIGS):
    """Clients that stop reading in the middle of a large structure."""
    out = []
    for cfg in configs:
        if cfg[0] == "shm":
            continue
        cls = [{"slow": {"posdata_part": 0.9}, "reconnect": False}, {"delay": 0.05, "wait": 1}]
        out.append(base(cfg, rng, clients=cls, nat=160000 if cfg[0] == "inet" else 20000, pbc=False, requests=[[0, 1], [0, 1]], lead=0.1))
        out[-1].pop("active", None)
    return out


def late_attach(rng):
    """Clients that join while others compute, and attach to their shared
    memory late."""
    out = []
    for cons in (False, True):
        for b in (1, 2) if cons else (1,):
            out.append(
                base(
                    ("shm", cons, b),
                    rng,
                    requests=[[0], [0, 1, 2, 3, 4], [0, 1, 2, 3, 4]],
                    clients=[
                        {"compute": 0.3},
                        {"delay": 0.08, "attach": 0.1, "wait": 1},
                        {"delay": 0.16, "wait": 1},
                        {"delay": 0.2, "attach": 0.05, "wait": 1},
                    ],
                )
            )
    return out


def racing_death(rng, n, configs=CONFIGS):
    """Several clients die at random points and come back, one is reliable."""
    out = []
    for i in range(n):
        cfg = configs[i % len(configs)]
        cls = []
        for _ in range(rng.choice([1, 2, 3])):
            fs = []
            for conn in range(rng.choice([1, 2])):
                pt, opt = rng.choice(POINTS)
                if pt == "txHAVEDATA" and cfg[1]:
                    pt = "posdata"
                f = {"at": pt, "n": rng.choice([1, 1, 2, 3]), "kind": "close", "conn": conn}
                if cfg[0] == "inet":
                    f["kind"] = rng.choice(["close", "reset"])
                f.update({k: opt[k] for k in ("frac", "edge") if k in opt})
                fs.append(f)
            cls.append(
                {
                    "faults": fs,
                    "init": rng.choice(["no", "first", "always"]),
                    "delay": rng.choice([0.0, 0.0, 0.01, 0.03]),
                    "compute": rng.choice([0.0, 0.01]),
                    "extra": extra(rng),
                    "slow": {"replied": rng.choice([0.0, 0.01])},
                }
            )
        cls.append({"delay": rng.choice([0.0, 0.03, 0.1]), "extra": extra(rng), "init": rng.choice(["no", "first"])})
        out.append(base(cfg, rng, clients=cls, maxconn=10, requests=[[0, 1, 2, 3], [0, 1, 2, 3]]))
    return out


# --------------------------------------------- schedules from the specification
MAP = {
    "connect": "connect",
    "status": "status",
    "txNEEDINIT": "txNEEDINIT",
    "txREADY": "txREADY",
    "txHAVEDATA": "txHAVEDATA",
    "init": "init",
    "posdata": "posdata",
    "getforce": "getforce",
    "part": "reply_part",
    "force": "replied",
}


def from_walk(walk, cfg, rng):
    """Projects a behaviour of Socket.tla on scripts for the clients: what each
    of them has seen and said before it dies, in which order they connect, and
    when requests are submitted."""
    hist, scripts, order = {}, {}, []
    phases, cur = [], []
    nsub = 0
    for (_, a, t) in walk:
        op, c = a["op"], a.get("c", 0)
        if op == "submit":
            cur.append(a["r"] - 1)
        elif op == "done":
            if cur:
                phases.append(cur)
                cur = []
        if not c:
            continue
        s = scripts.setdefault(c, {"faults": [], "init": "no", "reconnect": False, "extra": "json"})
        if op == "connect":
            s["delay"] = 0.015 * len(order)
            order.append(c)
        if op == "txNEEDINIT":
            s["init"] = "first"
        if op in MAP:
            hist.setdefault(c, []).append(MAP[op])
        if op == "part":
            s["faults"].append({"at": "reply_part", "n": hist[c].count("reply_part"), "kind": "close", "frac": rng.random()})
        if op == "die" and hist.get(c) and not s["faults"]:
            p = hist[c][-1]
            s["faults"].append({"at": p, "n": hist[c].count(p), "kind": "close"})
    if cur:
        phases.append(cur)
    phases = phases or [[0]]
    cls = [scripts[c] for c in order] + [{"delay": 0.05, "extra": "json"}]
    return base(cfg, rng, clients=cls, requests=phases + [[0, 1]])


def spec_walks(ctx, rng, n, configs=CONFIGS):
    cfg = model_cfg(2, 2, 1, False, False, 2, False, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    walks = [[(None, a, None) for a in w] for w in vf.sim_walks("Socket", cfg, n, 45, seed=ctx.seed)]
    seen, scs = set(), []
    for w in walks:
        dies = [a for (_, a, _) in w if a["op"] in ("die", "part")]
        if not dies:
            continue
        cfg = configs[len(scs) % len(configs)]
        sc = from_walk(w, cfg, rng)
        key = vf.canon([sc["clients"], sc["requests"]])
        if key in seen:
            continue
        seen.add(key)
        scs.append(sc)
    return scs
