"""C15: composite and in-process force fields."""

import json
import os
import random

from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specifications of composite requests (Composite.tla) and of batched evaluation (Batch.tla) checked with TLC, safety and liveness; schedules of submissions, component completions and polls simulated from them drive the real force-field classes with component force fields under the control of the harness, and every recorded history is validated against the specification with TLC"
NOTE = "exhaustive on the specification for up to 3 requests and 3 components, batches of up to 3; the real committee, rotational average and direct force fields are stepped call by call for every completion order generated, and also run with their own polling and evaluation threads"

LAB = os.path.join(vf.VERIF, "harness", "complab.py")
TCFG = "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"


def walks(ctx, n, cp, cm):
    return vf.sim_walks("CompositeMC", "CONSTANTS CP=%d CM=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (cp, cm), n, cp * (cm + 2), seed=ctx.seed)


def steps_of(rng, walk):
    st = []
    for a in walk:
        if a["op"] == "submit":
            st.append(["submit", a["p"]])
        elif a["op"] == "fin":
            st.append(["fin", a["p"], a["m"]])
        elif a["op"] == "done":
            st.append(["poll"])
            if rng.random() < 0.5:
                st.append(["rel", a["p"]])
        if rng.random() < 0.25:
            st.append(["poll"])
    return st


def scenarios(ctx, rng):
    n = ctx.n(1, 10)
    scs = []
    W = walks(ctx, 40 * n, 3, 3) + walks(ctx, 20 * n, 4, 2) + walks(ctx, 20 * n, 2, 4)
    for i, w in enumerate(W[: 110 * n]):
        nm = max([a.get("m", 1) for a in w] + [2])
        np_ = max([a.get("p", 1) for a in w] + [1])
        base = rng.choice([None, None, None, 0, 1, nm - 1]) if nm >= 3 else None
        scs.append(
            dict(
                kind="committee",
                seed=rng.randrange(10**5),
                np=np_,
                nm=nm,
                nat=[rng.choice([1, 2, 4]) for _ in range(np_)],
                offset=rng.choice([0.0, 1.5, -0.25]),
                dopbc=False,
                baseline=base,
                weights=rng.choice([[], [rng.randint(0, 4) for _ in range(nm - (base is not None))]]),
                alpha=rng.choice([1.0, 2.5, 0.5]),
                json=rng.random() < 0.4,
                sub=[rng.choice([0, 2, 3]) if m != base else 0 for m in range(nm)],
                moving=rng.random() < 0.5,
                steps=steps_of(rng, w),
            )
        )
        c = scs[-1]
        if c["nat"] and rng.random() < 0.7:
            c["nat"] = [c["nat"][0]] * np_
        else:
            # a force field serves one system, whose number of atoms is fixed
            c["nat"] = [c["nat"][0]] * np_
    for i in range(30 * n):
        np_ = rng.choice([1, 2, 3])
        st = []
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            if x < 0.25:
                st.append(["submit", rng.randint(1, np_)])
            elif x < 0.5:
                st.append(["fin", rng.randint(1, np_), rng.randint(1, 30)])
            elif x < 0.7:
                st.append(["most", rng.randint(1, np_), rng.choice([0, 0, 1, 2])])
            else:
                st.append(["poll"])
        scs.append(
            dict(
                kind="rotations",
                seed=rng.randrange(10**5),
                np=np_,
                nat=[rng.choice([1, 3])] * np_,
                offset=rng.choice([0.0, 1.5]),
                random=rng.random() < 0.5,
                inversion=rng.random() < 0.5,
                mode=rng.choice(["lebedev", "legendre"]),
                complete=rng.random() < 0.7,
                steps=st,
            )
        )
        scs[-1]["order"] = rng.choice([1, 3, 5] if scs[-1]["mode"] == "lebedev" else [1, 2, 3])
    for i in range(60 * n):
        nn = rng.choice([1, 3, 5, 8])
        st, r = [], 0
        for _ in range(rng.randint(3, 30)):
            x = rng.random()
            if x < 0.5 and r < nn:
                r += 1
                st.append(["submit", r])
            elif x < 0.65 and r:
                st.append(["rel", rng.randint(1, r)])
            else:
                st.append(["poll"])
        started = i % 4 == 0
        scs.append(
            dict(
                kind="batch",
                seed=rng.randrange(10**5),
                n=nn if not started else rng.choice([5, 9, 16]),
                size=rng.choice([1, 2, 3, 4]),
                threaded=started or rng.random() < 0.5,
                started=started,
                nth=rng.choice([1, 3]),
                offset=rng.choice([0.0, 1.5]),
                nat=[rng.choice([1, 2, 3])],
                steps=st,
            )
        )
    for i in range(30 * n):
        scs.append(
            dict(
                kind="threads",
                ff=["committee", "rot", "lj", "debye", "rot", "base"][i % 6],
                seed=rng.randrange(10**5),
                np=rng.choice([4, 8, 12]) * (10 if i % 6 in (1, 4) else 1),
                nat1=3,
                offset=rng.choice([0.0, 1.5, -2.0]),
                kthreads=rng.random() < 0.6,
                random=rng.random() < 0.5,
                nth=rng.choice([1, 1, 2, 4]),
                group=rng.choice([1, 2, 4]),
                wait=rng.random() < 0.5,
                twice=rng.random() < 0.7,
            )
        )
    for ff in ("rot", "com", "batch", "direct"):
        for a, b in (("queue", "poll"), ("poll", "queue"), ("poll", "poll"), ("queue", "queue"), ("poll", "release"), ("release", "poll")):
            for pre in (0, 1):
                if ctx.quick and pre == 0 and ff in ("com", "direct"):
                    continue
                scs.append(dict(kind="preempt", ff=ff, a=a, b=b, pre=pre, size=2 if ff == "batch" else 1, seed=rng.randrange(10**5)))
    for i in range(6 * n):
        scs.append(
            dict(
                kind="cavity",
                seed=rng.randrange(10**5),
                nat1=rng.choice([2, 3]),
                nph=[0, 2, 2, 1][i % 4],
                evalph=i % 3 != 2,
                offset=rng.choice([0.0, 1.5, -2.0]),
            )
        )
    return scs


def run_lab(scs, workers=6):
    chunks = [[] for _ in range(workers)]
    for i, s in enumerate(scs):
        chunks[i % workers].append(i)
    res = [None] * len(scs)

    def go(ch):
        if not ch:
            return
        r, out = vf.run_py(LAB, [scs[i] for i in ch], timeout=2400)
        for k, i in enumerate(ch):
            res[i] = r[k] if r is not None else dict(crash=out, trace=[], why=[])

    vf.pmap(go, chunks, workers)
    return res


def run(ctx):
    for c in [(2, 3), (3, 2)] + ctx.n([], [(3, 3), (4, 2)]):
        ctx.tlc_stats(vf.must_tlc("CompositeMC", "CONSTANTS CP=%d CM=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnlyComplete OwnValues\nPROPERTY Once\n" % c, workers=4))
    ctx.tlc_stats(vf.must_tlc("CompositeMC", "CONSTANTS CP=2 CM=2\nSPECIFICATION FairSpec\nCHECK_DEADLOCK FALSE\nPROPERTY Answered\n", workers=4))
    for c in [(4, 2), (4, 3)] + ctx.n([], [(6, 3), (5, 4)]):
        ctx.tlc_stats(vf.must_tlc("BatchMC", "CONSTANTS CN=%d CS=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Together NoneTwice TakenHeld\nPROPERTY Once\n" % c, workers=4))
    ctx.tlc_stats(vf.must_tlc("BatchMC", "CONSTANTS CN=3 CS=2\nSPECIFICATION FairSpec\nCHECK_DEADLOCK FALSE\nPROPERTY Answered\n", workers=4))
    rng = random.Random(ctx.seed)
    scs = scenarios(ctx, rng)
    rng.shuffle(scs)
    res = run_lab(scs)
    for s, r in zip(scs, res):
        if r.get("crash"):
            raise vf.MachineryError(r["crash"])
        if r.get("hung") or r.get("error"):
            if r.get("error") and not r.get("inrepo"):
                raise vf.MachineryError(json.dumps(s) + r["error"])
            a = run_lab([s, s], 2)
            if all(x.get("hung") or x.get("error") for x in a):
                ctx.violation("the force field did not survive: " + (r.get("error") or "hung").strip().splitlines()[-1], {"scenario": s, "result": r})
    good = [(s, dict(r, trace=t)) for s, r in zip(scs, res) for t in (r.get("traces") or [r["trace"]]) if t]
    for mod, kinds in (("CompositeTrace", ("committee", "rotations", "threads", "cavity", "preempt")), ("BatchTrace", ("batch",))):
        g = [(s, r) for s, r in good if s["kind"] in kinds]
        trs = [r["trace"] for _, r in g]
        for k in range(0, len(trs), 150):
            tr, prog = vf.validate_traces(mod, TCFG, trs[k : k + 150])
            ctx.tlc_stats(tr)
            for j, t in enumerate(trs[k : k + 150]):
                s, r = g[k + j]
                if prog[j] < len(t) or any("changed" in x for x in r["why"]):
                    i = min(prog[j], len(t) - 1)
                    ctx.violation(
                        "%s: the specification cannot explain event %d: %s" % (s["kind"], i, json.dumps(t[i])[:200]),
                        {"scenario": s, "flagged": r["why"][:5], "trace": t[max(0, i - 15) : i + 2]},
                    )
                else:
                    ctx.traces()
    for k in ("committee", "rotations", "batch", "threads", "cavity", "preempt"):
        ctx.count(k + "_histories", sum(1 for s in scs if s["kind"] == k))
    ctx.sample({"scenario": good[0][0], "trace": good[0][1]["trace"][:10]})
    ctx.assumptions += [
        "component results are delivered through the request's status and result, as the force fields themselves do",
        "threaded runs are sampled under a short thread switch interval, not enumerated",
    ]
