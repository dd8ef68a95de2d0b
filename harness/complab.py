"""Laboratory for composite and in-process force fields.  Reads a list of
scenarios from stdin, runs each against the real classes and prints the recorded
traces (one result per scenario)."""

import json
import os
import random
import socket
import sys
import threading
import time

import numpy as np

from lib import vf

from ipi.engine.atoms import Atoms
from ipi.engine.cell import Cell, GenericCell
from ipi.engine import forcefields as F
from ipi.utils.messages import verbosity
from ipi.utils.softexit import softexit
from ipi.utils.prng import Random

verbosity.level = "quiet"


class Gated(F.ForceField):
    """A force field whose requests are completed by the laboratory."""

    def __init__(self, name, **k):
        super().__init__(name=name, threaded=True, **k)

    def poll(self):
        pass


def mkatoms(rng, n):
    a = Atoms(n)
    a.q[:] = [rng.uniform(-3, 3) for _ in range(3 * n)]
    a.names[:] = "H"
    a.m[:] = 1837.0
    return a


def mkcell(rng):
    h = np.diag([rng.uniform(6, 9) for _ in range(3)])
    h[0, 1] = rng.uniform(-0.5, 0.5)
    h[1, 2] = rng.uniform(-0.5, 0.5)
    return Cell(h)


def arr(seed, n):
    return np.random.RandomState(seed % (2**31)).uniform(-1, 1, n)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def finish(req, res):
    req["result"] = res
    req["t_finished"] = time.time()
    req["status"] = "Done"
    req._event_done.set()


def asl(x):
    return x.tolist() if isinstance(x, np.ndarray) else x


# ------------------------------------------------------------------ committee
def committee(sc):
    rng = random.Random(sc["seed"])
    nm, np_ = sc["nm"], sc["np"]
    kids = [Gated("m%d" % i) for i in range(nm)]
    base = sc.get("baseline")  # index of the baseline member or None
    kw = dict(name="com", fflist=list(kids), offset=sc["offset"], dopbc=sc["dopbc"])
    mem = [i for i in range(nm) if i != base]
    w = {i: 1 for i in mem}
    if sc["weights"]:
        for i, x in zip(mem, sc["weights"]):
            w[i] = x
        kw["ffweights"] = np.array(sc["weights"][: len(mem)], float)
    kw["alpha"] = sc["alpha"]
    kw["parse_json"] = sc["json"]
    if base is not None:
        kw.update(baseline_name="m%d" % base, baseline_uncertainty=0.7)
    com = F.FFCommittee(**kw)
    # how many models each member reports when it is itself a committee
    sub = [(sc["sub"][i] if sc["json"] else 0) for i in range(nm)]
    nmod = sum(max(1, sub[i]) for i in mem)
    val = [[None] * nm for _ in range(np_)]
    dat = {}
    for p in range(np_):
        for m in range(nm):
            ns = max(1, sub[m])
            e = [rng.randint(-40, 40) for _ in range(ns)]
            dat[p, m] = e
            val[p][m] = sum(e)
    ev = [
        dict(
            np=np_,
            nm=nm,
            w=[w.get(m, 0) for m in range(nm)],
            val=val,
            norm=nmod,
            hidden=False,
            tol=0,
        )
    ]
    why = []
    atoms = [mkatoms(rng, sc["nat"][p]) for p in range(np_)]
    cell = mkcell(rng)
    reqs = {}
    seen = set()

    def child_result(p, m):
        n = 3 * sc["nat"][p]
        ns = sub[m]
        s = 1000 * p + 10 * m + sc["seed"]
        x = {"raw": "r%d.%d" % (p, m), "tag": [p, m]}
        if m == 0:
            x["only"] = 1
        if ns == 0:
            return [float(dat[p, m][0]), arr(s, n), arr(s + 1, 9).reshape(3, 3), x]
        x["committee_pot"] = [float(v) for v in dat[p, m]]
        x["committee_force"] = [arr(s + 20000 * k, n).tolist() for k in range(ns)]
        x["committee_virial"] = [arr(s + 1 + 20000 * k, 9).reshape(3, 3).tolist() for k in range(ns)]
        return [
            float(np.mean(dat[p, m])),
            np.mean([arr(s + 20000 * k, n) for k in range(ns)], axis=0),
            np.mean([arr(s + 1 + 20000 * k, 9) for k in range(ns)], axis=0).reshape(3, 3),
            x,
        ]

    def models(p):
        """weighted energies, forces and virials of all models, in order"""
        n = 3 * sc["nat"][p]
        E, Fo, V = [], [], []
        for m in mem:
            s = 1000 * p + 10 * m + sc["seed"]
            for k in range(max(1, sub[m])):
                E.append(w[m] * float(dat[p, m][k]))
                Fo.append(w[m] * arr(s + 20000 * k, n))
                V.append(w[m] * arr(s + 1 + 20000 * k, 9).reshape(3, 3))
        return np.array(E), np.array(Fo), np.array(V)

    def check(p, r):
        E, Fo, V = models(p)
        res = r["result"]
        em, fm, vm = E.mean(), Fo.mean(axis=0), V.mean(axis=0)
        ok = True

        def need(c, msg):
            nonlocal ok
            if not c:
                ok = False
                why.append("request %d: %s" % (p + 1, msg))

        a = sc["alpha"]
        if base is not None:
            N = len(E)
            var = a * a * np.var(E, ddof=1)
            sb = 0.49
            mix = sb / (sb + var)
            s0 = 1000 * p + 10 * base + sc["seed"]
            de = (E - em)[:, None]
            uf = a * a * np.sum(de * (Fo - fm), axis=0) / (N - 1)
            uv = a * a * np.sum(de[:, :, None] * (V - vm), axis=0) / (N - 1)
            em2 = val[p][base] + em * mix
            fm2 = arr(s0, fm.size) + fm * mix - 2 * em * sb / (sb + var) ** 2 * uf
            vm2 = arr(s0 + 1, 9).reshape(3, 3) + vm * mix - 2 * em * sb / (sb + var) ** 2 * uv
            need(close(res[0] + sc["offset"], em2, 1e-8), "energy with baseline %r instead of %r" % (res[0] + sc["offset"], em2))
            need(close(res[1], fm2, 1e-8), "forces with baseline")
            need(close(res[2], vm2, 1e-8), "virial with baseline")
            num = sum(w.get(m, 0) * val[p][m] for m in range(nm)) if ok else -(10**6)
        else:
            num = float(res[0] + sc["offset"]) * nmod
            need(abs(num - round(num)) < 1e-6, "energy %r" % res[0])
            num = int(round(num))
            need(close(res[1], fm, 1e-8), "forces")
            need(close(res[2], vm, 1e-8), "virial")
        x = res[3]
        need(close(x["committee_pot"], em + a * (E - em), 1e-8), "energies of the members %r, not %r" % (asl(x["committee_pot"]), (em + a * (E - em)).tolist()))
        if len(E) > 1:
            need(close(x["committee_uncertainty"], a * np.std(E, ddof=1), 1e-8), "uncertainty")
        need(close(np.array(x["committee_force"]).reshape(len(E), -1), fm + a * (Fo - fm), 1e-8), "forces of the members")
        need(close(np.array(x["committee_virial"]).reshape(len(E), 9), (vm + a * (V - vm)).reshape(len(E), 9), 1e-8), "virials of the members")
        need(asl(x["committee_raw"]) == ["r%d.%d" % (p, m) for m in mem], "extras of the members %r" % (x.get("committee_raw"),))
        need([list(t) for t in x["committee_tag"]] == [[p, m] for m in mem], "extras of the members %r" % (x.get("committee_tag"),))
        return ok, num

    def look():
        for p, r in sorted(reqs.items()):
            if r["status"] == "Done" and p not in seen:
                seen.add(p)
                ok, num = check(p, r)
                ev.append(dict(e="done", p=p + 1, ok=ok, num=num))
            held = sum(1 for h, k in zip(r["ff_handles"], kids) if any(h is q for q in k.requests))
            ev.append(dict(e="look", p=p + 1, st=r["status"], held=held))
        # a member may not be asked for anything else
        n = sum(len(k.requests) for k in kids)
        tot = sum(sum(1 for h, k in zip(r["ff_handles"], kids) if any(h is q for q in k.requests)) for r in reqs.values())
        if n != tot:
            why.append("stray component requests")
            ev.append(dict(e="stray"))

    for st in sc["steps"]:
        if st[0] == "submit":
            p = st[1] - 1
            if p in reqs:
                continue
            if sc["moving"]:
                atoms[p].q[:] += 0.125
            nb = [len(k.requests) for k in kids]
            reqs[p] = com.queue(atoms[p], cell, reqid=p)
            ev.append(dict(e="submit", p=p + 1))
            q = np.array(atoms[p].q)
            if sc["moving"]:
                # the atoms move on, the request does not
                atoms[p].q[:] += 0.25
                hc = np.array(cell.h)
                cell.h = hc * 1.5
            for k, b in zip(kids, nb):
                r1 = k.requests[-1]
                if len(k.requests) != b + 1 or not close(r1["pos"], q) or (sc["moving"] and not close(r1["cell"][0], hc)) or not close(r1["cell"][0] @ r1["cell"][1], np.eye(3)):
                    why.append("members not asked for the structure of request %d" % (p + 1))
                    ev.append(dict(e="notasked", p=p + 1))
            if sc["moving"]:
                cell.h = hc
            if not close(reqs[p]["pos"], q):
                why.append("structure of request %d" % (p + 1))
                ev.append(dict(e="notasked", p=p + 1))
        elif st[0] == "fin":
            p, m = st[1] - 1, st[2] - 1
            if p not in reqs or reqs[p]["ff_handles"][m]["status"] == "Done":
                continue
            finish(reqs[p]["ff_handles"][m], child_result(p, m))
            ev.append(dict(e="fin", p=p + 1, m=m + 1))
        elif st[0] == "rel":
            # the consumer releases a request it has read
            p = st[1] - 1
            if p in seen:
                com.release(reqs[p])
        else:
            com.poll()
            look()
    for _ in range(3):
        com.poll()
    look()
    ev.append(dict(e="end"))
    return dict(trace=ev, why=why)


# ------------------------------------------------------------------ rotations
def rotations(sc):
    from ipi.utils.mathtools import (
        get_rotation_quadrature_legendre,
        get_rotation_quadrature_lebedev,
    )

    rng = random.Random(sc["seed"])
    np_ = sc["np"]
    inner = Gated("inner")
    ff = F.FFRotations(
        name="rot",
        prng=Random(seed=sc["seed"]),
        ffsocket=inner,
        random=sc["random"],
        inversion=sc["inversion"],
        grid_order=sc["order"],
        grid_mode=sc["mode"],
        offset=sc["offset"],
    )
    quad = (get_rotation_quadrature_legendre if sc["mode"] == "legendre" else get_rotation_quadrature_lebedev)(sc["order"])
    wq = []
    for _, wt, _ in quad:
        wq += [wt] * (2 if sc["inversion"] else 1)
    wq = np.array(wq)
    nm = len(wq)
    W = 100000
    wi = [int(round(W * x / wq.sum())) for x in wq]
    val = [[rng.randint(-9, 9) for _ in range(nm)] for _ in range(np_)]
    ev = [dict(np=np_, nm=nm, w=wi, val=val, norm=W, hidden=False, tol=10 * nm + 10)]
    why = []
    atoms = [mkatoms(rng, sc["nat"][p]) for p in range(np_)]
    cell = mkcell(rng)
    h = np.array(cell.h)
    reqs, seen, Rs = {}, set(), {}

    def check(p, r):
        res = r["result"]
        ok = True

        def need(c, msg):
            nonlocal ok
            if not c:
                ok = False
                why.append("request %d: %s" % (p + 1, msg))

        n = 3 * sc["nat"][p]
        num = int(round((res[0] + sc["offset"]) * W))
        e = np.sum(np.array(val[p]) * wq) / wq.sum()
        f = np.zeros(n)
        v = np.zeros((3, 3))
        for m in range(nm):
            s = 1000 * p + 7 * m + sc["seed"]
            R = Rs[p][m]
            f += wq[m] * (arr(s, n).reshape(-1, 3) @ R).flatten() / wq.sum()
            v += wq[m] * (R.T @ arr(s + 1, 9).reshape(3, 3) @ R) / wq.sum()
        need(close(res[0] + sc["offset"], e, 1e-8), "energy %r instead of %r" % (res[0] + sc["offset"], e))
        need(close(res[1], f, 1e-7), "forces")
        need(close(res[2], v, 1e-7), "virial")
        need(close(res[3]["o3grid_pots"], np.array(val[p], float)), "energies on the grid")
        need([list(t) for t in res[3]["tag"]] == [[p, m] for m in range(nm)], "extras on the grid")
        raw = res[3]["raw"]
        need(all(("r%d.%d" % (p, m)) in raw for m in range(nm)), "raw extras")
        return ok, num

    def look():
        for p, r in sorted(reqs.items()):
            if r["status"] == "Done" and p not in seen:
                seen.add(p)
                ok, num = check(p, r)
                ev.append(dict(e="done", p=p + 1, ok=ok, num=num))
            held = sum(1 for q in inner.requests if any(q is x for x in r["ff_handles"]))
            ev.append(dict(e="look", p=p + 1, st=r["status"], held=held))

    def one(p, m):
        hnd = reqs[p]["ff_handles"]
        if hnd[m]["status"] == "Done":
            return
        s = 1000 * p + 7 * m + sc["seed"]
        n = 3 * sc["nat"][p]
        finish(
            hnd[m],
            [float(val[p][m]), arr(s, n), arr(s + 1, 9).reshape(3, 3), {"raw": "r%d.%d" % (p, m), "tag": [p, m]}],
        )
        ev.append(dict(e="fin", p=p + 1, m=m + 1))

    for st in sc["steps"]:
        if st[0] == "submit":
            p = st[1] - 1
            if p in reqs:
                continue
            nb = len(inner.requests)
            q0 = np.array(atoms[p].q)
            reqs[p] = ff.queue(atoms[p], cell, reqid=p)
            ev.append(dict(e="submit", p=p + 1))
            new = inner.requests[nb:]
            bad = len(new) != nm or len(reqs[p]["ff_handles"]) != nm
            bad = bad or not close(np.array(atoms[p].q), q0) or not close(np.array(cell.h), h)
            Rs[p] = []
            if not bad:
                for x in reqs[p]["ff_handles"]:
                    R = x["cell"][0] @ np.linalg.inv(h)
                    Rs[p].append(R)
                    if not close(R @ R.T, np.eye(3), 1e-7):
                        bad = True
                    if not close(x["pos"], (q0.reshape(-1, 3) @ R.T).flatten(), 1e-7):
                        bad = True
            if not bad:
                # the same grid for every request, up to one common rotation
                Q = []
                for x in quad:
                    Q += [x[0], -x[0]] if sc["inversion"] else [x[0]]
                R0 = Q[0].T @ Rs[p][0]
                bad = not all(close(a @ R0, b, 1e-7) for a, b in zip(Q, Rs[p])) or (not sc["random"] and not close(R0, np.eye(3), 1e-7))
            if sc["random"] and not bad and p > 0 and 0 in Rs and close(Rs[p][0], Rs[0][0]):
                bad = True
            if bad:
                why.append("inner structures of request %d" % (p + 1))
                ev.append(dict(e="notasked", p=p + 1))
                return dict(trace=ev, why=why)
        elif st[0] == "fin":
            p = st[1] - 1
            if p in reqs:
                one(p, (st[2] - 1) % nm)
        elif st[0] == "most":
            # all but a few of the components
            p = st[1] - 1
            if p in reqs:
                ms = list(range(nm))
                rng.shuffle(ms)
                for m in ms[st[2] :]:
                    one(p, m)
        else:
            ff.poll()
            look()
    for p in list(reqs):
        if sc["complete"]:
            for m in range(nm):
                one(p, m)
    for _ in range(np_ + 3):
        ff.poll()
    look()
    ev.append(dict(e="end"))
    return dict(trace=ev, why=why)


# ------------------------------------------------------------------- batches
PES = '''
from ipi.pes.dummy import Dummy_driver
import numpy as np, json
__DRIVER_NAME__ = "rec"
__DRIVER_CLASS__ = "Rec_driver"
class Rec_driver(Dummy_driver):
    log = []
    delay = 0.0
    def compute_structure(self, cell, pos):
        p = np.array(pos).reshape(-1, 3)
        return float(np.sum(p**2)), -2 * p, np.outer(p.sum(axis=0), np.ones(3)) * cell[0, 0], json.dumps({"s": float(p.sum())})
    def compute(self, cell, pos):
        import time
        if self.delay: time.sleep(self.delay)
        if isinstance(cell, list):
            self.log.append([np.array(x).sum() for x in pos])
        else:
            self.log.append([np.array(pos).sum()])
        return super().compute(cell, pos)
'''


def expect(q, h, off):
    p = q.reshape(-1, 3)
    return float(np.sum(p**2)) - off, -2 * q, np.outer(p.sum(axis=0), np.ones(3)) * h[0, 0], float(p.sum())


def right(res, q, h, off):
    e, f, v, s = expect(q, h, off)
    return (
        close(res[0], e)
        and close(res[1], f)
        and close(res[2], v)
        and isinstance(res[3], dict)
        and close(res[3].get("s", 1e9), s)
    )


def direct(sc, **k):
    with open("recpes.py", "w") as fh:
        fh.write(PES)
    return F.FFDirect(pes="custom", pes_path=os.path.abspath("recpes.py"), **k)


def batch(sc):
    rng = random.Random(sc["seed"])
    n = sc["n"]
    ff = direct(sc, name="d", batch_size=sc["size"], threaded=sc["threaded"], offset=sc["offset"], dopbc=False)
    type(ff.driver).log = []
    log = type(ff.driver).log
    ev = [dict(n=n, size=sc["size"], idle=sc["size"], threaded=sc["threaded"])]
    why = []
    atoms = [mkatoms(rng, rng.choice(sc["nat"])) for _ in range(n)]
    cells = [mkcell(rng) for _ in range(n)]
    tot = {round(float(np.array(a.q).sum()), 9): i for i, a in enumerate(atoms)}
    reqs, seen = {}, set()
    nlog = 0

    def look():
        nonlocal nlog
        while nlog < len(log):
            b = [tot.get(round(float(x), 9), -2) + 1 for x in log[nlog]]
            ev.append(dict(e="call", b=b))
            nlog += 1
        for i, r in sorted(reqs.items()):
            if r["status"] == "Done" and i not in seen:
                seen.add(i)
                ok = right(r["result"], np.array(atoms[i].q), np.array(cells[i].h), sc["offset"])
                if not ok:
                    why.append("request %d has not its own row" % (i + 1))
                ev.append(dict(e="done", r=i + 1, ok=ok))

    if sc["started"]:
        # real polling thread, several submitting threads
        for i in range(n):
            ev.append(dict(e="submit", r=i + 1))
        ff.start()
        sys.setswitchinterval(1e-5)

        def sub(ids):
            for i in ids:
                reqs[i] = ff.queue(atoms[i], cells[i], reqid=i)

        th = [threading.Thread(target=sub, args=(list(range(k, n, sc["nth"])),)) for k in range(sc["nth"])]
        [t.start() for t in th]
        [t.join() for t in th]
        t0 = time.time()
        while any(r["status"] != "Done" for r in reqs.values()) and time.time() - t0 < 20:
            time.sleep(0.002)
        sys.setswitchinterval(0.005)
        look()
        for i in range(n):
            if i not in seen:
                why.append("request %d never answered" % (i + 1))
        ev.append(dict(e="end"))
        ff.stop()
        return dict(trace=ev, why=why)

    for st in sc["steps"]:
        if st[0] == "submit":
            i = st[1] - 1
            if i in reqs:
                continue
            ev.append(dict(e="submit", r=i + 1))
            reqs[i] = ff.queue(atoms[i], cells[i], reqid=i)
            look()
        elif st[0] == "rel":
            i = st[1] - 1
            if i in seen:
                ff.release(reqs[i])
        else:
            ff.poll()
            look()
    if sc["threaded"]:
        for _ in range(2 * sc["size"] + 3):
            ff.poll()
    look()
    ev.append(dict(e="end"))
    return dict(trace=ev, why=why)


# ------------------------------------------------------------- real threads
class Slow(float):
    """an energy offset that takes a while to subtract"""

    __array_ufunc__ = None

    def __rsub__(self, o):
        time.sleep(0.003)
        return o - float(self)


def lj(q, eps, sig):
    x = q.reshape(-1, 3)
    e, f = 0.0, np.zeros_like(x)
    v = np.zeros((3, 3))
    for i in range(len(x)):
        for j in range(i):
            d = x[i] - x[j]
            r2 = d @ d
            s6 = (sig * sig / r2) ** 3
            e += 4 * eps * (s6 * s6 - s6)
            g = 4 * eps * (12 * s6 * s6 - 6 * s6) / r2 * d
            f[i] += g
            f[j] -= g
            v += np.outer(d, g)
    return e, f.flatten(), v


def grid_atoms(rng, n):
    a = mkatoms(rng, n)
    a.q[:] = np.array([[2.0 * i + rng.uniform(-0.2, 0.2), rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5)] for i in range(n)]).flatten()
    return a


def waitdone(reqs, limit=20.0):
    t0 = time.time()
    while time.time() - t0 < limit:
        if all(r["status"] == "Done" for r in reqs):
            return True
        time.sleep(0.0005)
    return False


def threads(sc):
    """real force fields with their own threads; only the results are visible"""
    rng = random.Random(sc["seed"])
    n = sc["np"]
    nat = sc["nat1"]
    cell = mkcell(rng)
    h = np.array(cell.h)
    off = sc["offset"]
    atoms = [grid_atoms(rng, nat) for _ in range(n)]
    qs = [np.array(a.q) for a in atoms]
    H = np.random.RandomState(sc["seed"]).uniform(-1, 1, (3 * nat, 3 * nat))
    H = H @ H.T
    why = []
    if sc["ff"] == "committee":
        kids = [
            F.FFLennardJones(name="a", pars={"eps": 0.25, "sigma": 1.7}, threaded=sc["kthreads"], offset=Slow(0.5), dopbc=False),
            F.FFDebye(name="b", H=H, xref=np.zeros(3 * nat), vref=1.0, threaded=True, offset=Slow(-0.25), dopbc=False),
            direct(sc, name="c", threaded=sc["kthreads"], offset=0.125),
        ]
        ff = F.FFCommittee(name="com", fflist=kids, offset=off, dopbc=False)
        for k in kids:
            k.dopbc = False

        def exp(q):
            e1, f1, v1 = lj(q, 0.25, 1.7)
            e2, f2 = 1.0 + 0.5 * q @ H @ q, -H @ q
            e3, f3, v3, _ = expect(q, h, 0.125)
            return (e1 - 0.5 + e2 + 0.25 + e3) / 3 - off, (f1 + f2 + f3) / 3, None

    elif sc["ff"] == "rot":
        kids = [direct(sc, name="c", threaded=sc["kthreads"], offset=0.125, dopbc=False)]
        ff = F.FFRotations(name="rot", prng=Random(seed=3), ffdirect=kids[0], random=sc["random"], inversion=False, grid_order=1, grid_mode="lebedev", offset=off, dopbc=False)

        def exp(q):
            e, f, v, s = expect(q, h, 0.125)
            return e - off, f, None

    elif sc["ff"] == "lj":
        ff = F.FFLennardJones(name="a", pars={"eps": 0.25, "sigma": 1.7}, threaded=sc["kthreads"], offset=Slow(off), dopbc=False)
        kids = []

        def exp(q):
            e, f, v = lj(q, 0.25, 1.7)
            return e - off, f, np.zeros((3, 3))

    elif sc["ff"] == "debye":
        ff = F.FFDebye(name="b", H=H, xref=np.zeros(3 * nat), vref=1.0, threaded=sc["kthreads"], offset=Slow(off), dopbc=False)
        kids = []

        def exp(q):
            return 1.0 + 0.5 * q @ H @ q - off, -H @ q, None

    elif sc["ff"] == "base":
        ff = F.ForceField(name="z", threaded=sc["kthreads"], offset=off)
        kids = []

        def exp(q):
            return -off, 0 * q, np.zeros((3, 3))

    ev = [dict(np=n, nm=1, w=[1], val=[[p + 1] for p in range(n)], norm=1, hidden=True, tol=0)]
    for p in range(n):
        ev.append(dict(e="submit", p=p + 1))
    ff.bind(None)
    ff.start()
    sys.setswitchinterval(1e-5)
    reqs = {}
    out = {}

    def sub(ids):
        # submits a group, waits for it like the force components do, reads it
        k = 0
        while k < len(ids):
            g = ids[k : k + sc["group"]]
            k += sc["group"]
            for p in g:
                reqs[p] = ff.queue(atoms[p], cell, reqid=p)
            for p in g:
                r = reqs[p]
                t0 = time.time()
                while r["status"] != "Done":
                    if time.time() - t0 > 15:
                        break
                    if sc["wait"]:
                        r._event_done.wait(timeout=1.0)
                    else:
                        time.sleep(0.0002)
                if r["status"] != "Done":
                    continue
                res = r["result"]
                out[p] = [float(res[0]), np.array(res[1]), np.array(res[2])]
                ff.release(r)
                # a result that changes after it was declared complete is not complete
                if sc["twice"]:
                    time.sleep(0.005)
                    if not (float(r["result"][0]) == out[p][0]):
                        why.append("energy of request %d changed after it was Done" % (p + 1))

    th = [threading.Thread(target=sub, args=(list(range(k, n, sc["nth"])),)) for k in range(sc["nth"])]
    for t in th:
        t.daemon = True
        t.start()
    for t in th:
        t.join(60)
    sys.setswitchinterval(0.005)
    order = sorted(out)
    for p in order:
        e, f, v = exp(qs[p])
        r = out[p]
        ok = close(r[0], e, 1e-7) and close(r[1], f, 1e-6) and (v is None or close(r[2], v, 1e-6))
        if not ok:
            why.append("request %d: energy %r, expected %r" % (p + 1, r[0], e))
        ev.append(dict(e="done", p=p + 1, ok=ok, num=p + 1 if ok else 0))
    for k in kids:
        left = [r for r in k.requests]
        if left and len(out) == n:
            time.sleep(0.05)
            if list(k.requests):
                why.append("component requests not released")
                ev.append(dict(e="held"))
    ev.append(dict(e="end"))
    ff.stop()
    for k in kids:
        k.stop()
    return dict(trace=ev, why=why)


# ------------------------------------------------------------------- cavity
def recvall(s, n):
    b = b""
    while len(b) < n:
        x = s.recv(n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def hclient(addr, stop):
    s = socket.socket(socket.AF_UNIX)
    for _ in range(200):
        try:
            s.connect(addr)
            break
        except OSError:
            time.sleep(0.02)
    have = None
    try:
        while not stop.is_set():
            m = recvall(s, 12).strip()
            if m == b"STATUS":
                s.sendall((b"HAVEDATA" if have is not None else b"READY").ljust(12))
            elif m == b"INIT":
                recvall(s, 4)
                k = int(np.frombuffer(recvall(s, 4), np.int32)[0])
                recvall(s, k)
            elif m == b"POSDATA":
                h = np.frombuffer(recvall(s, 72)).reshape(3, 3).T
                recvall(s, 72)
                nat = int(np.frombuffer(recvall(s, 4), np.int32)[0])
                have = np.frombuffer(recvall(s, 24 * nat)).copy()
            elif m == b"GETFORCE":
                e = 0.5 * float(have @ have)
                f = -have
                x = have.reshape(-1, 3)
                v = -x.T @ x
                s.sendall(b"FORCEREADY".ljust(12) + np.float64(e).tobytes() + np.int32(len(x)).tobytes() + f.tobytes() + np.ascontiguousarray(v.T).tobytes() + np.int32(0).tobytes())
                have = None
            else:
                break
    except (EOFError, OSError):
        pass
    s.close()


def cavity(sc):
    from ipi.interfaces.sockets import InterfaceSocket

    rng = random.Random(sc["seed"])
    addr = "cav%d_%d" % (os.getpid(), sc["seed"])
    itf = InterfaceSocket(address=addr, mode="unix", sockets_prefix=os.getcwd() + "/ipi_")
    nat, nph = sc["nat1"], sc["nph"]
    ff = F.FFCavPhSocket(
        name="cav",
        latency=1e-4,
        offset=sc["offset"],
        interface=itf,
        dopbc=False,
        threaded=True,
        charge_array=np.array([rng.uniform(-1, 1) for _ in range(nat)]),
        apply_photon=nph > 0,
        E0=0.03,
        omega_c=0.4,
        ph_rep="loose" if nph == 2 else "dense",
        evaluate_photon=sc["evalph"],
    )
    n = 1
    ev = [dict(np=n, nm=1, w=[1], val=[[1]], norm=1, hidden=True, tol=0), dict(e="submit", p=1)]
    why = []
    ff.bind(None)
    ff.start()
    stop = threading.Event()
    cl = threading.Thread(target=hclient, args=(os.getcwd() + "/ipi_" + addr, stop), daemon=True)
    cl.start()
    na = nat + nph
    a = mkatoms(rng, na)
    a.names[:] = ["H"] * nat + ["L"] * nph
    cell = mkcell(rng)
    q0 = np.array(a.q)
    ok = True

    def val(q):
        a.q[:] = q
        r = ff.queue(a, cell, reqid=0)
        return r["result"]

    # number of photonic coordinates is fixed when the driver is set up
    res = val(q0)
    e, f = float(res[0]), np.array(res[1])
    if not (sc["evalph"] and nph):
        m = 3 * nat
        e0 = 0.5 * q0[:m] @ q0[:m] - sc["offset"]
        if not (close(e, e0) and close(f[:m], -q0[:m]) and close(f[m:], 0 * f[m:])):
            ok = False
            why.append("energy %r instead of %r" % (e, e0))
    else:
        d = 1e-4
        for k in range(len(q0)):
            x = q0.copy()
            x[k] += d
            ep = float(val(x)[0])
            x[k] -= 2 * d
            em = float(val(x)[0])
            if abs((em - ep) / (2 * d) - f[k]) > 1e-5:
                ok = False
                why.append("force %d is %r, minus the derivative of the energy is %r" % (k, f[k], (em - ep) / (2 * d)))
                break
        # far from everything else the offset must still be counted once
        z = val(0 * q0)
        if not close(float(z[0]), -sc["offset"]):
            ok = False
            why.append("energy at the origin is %r, not minus the offset %r" % (float(z[0]), sc["offset"]))
    v = -q0[: 3 * nat].reshape(-1, 3).T @ q0[: 3 * nat].reshape(-1, 3)
    if not close(np.array(res[2]), v, 1e-7):
        ok = False
        why.append("virial %r instead of %r" % (np.array(res[2]).tolist(), v.tolist()))
    ev.append(dict(e="done", p=1, ok=ok, num=1 if ok else 0))
    ev.append(dict(e="end"))
    stop.set()
    ff.stop()
    return dict(trace=ev, why=why)


# ------------------------------------------------- preemption at every line
def preempt(sc):
    """operation A is interrupted at its k-th line (inside the force-field
    module) by a complete operation B in another thread, for every k"""
    rng = random.Random(sc["seed"])
    out = []
    cell = mkcell(rng)
    h = np.array(cell.h)
    mod = os.path.realpath(F.__file__)
    k = 0
    traces, whys = [], []
    while True:
        k += 1
        off = 1.5
        if sc["ff"] == "rot":
            kid = direct(sc, name="c", threaded=False, offset=0.125, dopbc=False)
            ff = F.FFRotations(name="rot", prng=Random(seed=3), ffdirect=kid, random=True, grid_order=1, grid_mode="lebedev", offset=off, dopbc=False)
            doff = off + 0.125
        elif sc["ff"] == "com":
            kid = direct(sc, name="c", threaded=False, offset=0.125, dopbc=False)
            kid2 = direct(sc, name="c2", threaded=False, offset=0.125, dopbc=False)
            ff = F.FFCommittee(name="com", fflist=[kid, kid2], offset=off, dopbc=False)
            doff = off + 0.125
        elif sc["ff"] == "batch":
            ff = direct(sc, name="d", threaded=True, batch_size=sc["size"], offset=off, dopbc=False)
            doff = off
        elif sc["ff"] == "direct":
            ff = direct(sc, name="d", threaded=False, offset=off, dopbc=False)
            doff = off
        n = 4
        atoms = [mkatoms(rng, 2) for _ in range(n)]
        ev = [dict(np=n, nm=1, w=[1], val=[[p + 1] for p in range(n)], norm=1, hidden=True, tol=0)]
        ev += [dict(e="submit", p=p + 1) for p in range(n)]
        reqs = [None] * n
        errs = []

        def q(i):
            reqs[i] = ff.queue(atoms[i], cell, reqid=i)

        def op(name, i):
            if name == "queue":
                q(i)
            elif name == "poll":
                ff.poll()
            elif name == "release":
                ff.release(reqs[i])

        q(0)
        if sc["pre"]:
            q(1)
        if sc["a"] == "release" or sc["b"] == "release":
            ff.poll()
        hit = [0]
        box = []

        def intruder():
            try:
                op(sc["b"], 3 if sc["b"] == "queue" else 0)
            except BaseException as e:
                errs.append(vf.exc_info(e))

        def tr(frame, event, arg):
            if os.path.realpath(frame.f_code.co_filename) != mod:
                return None
            if event == "line":
                hit[0] += 1
                if hit[0] == k:
                    t = threading.Thread(target=intruder, daemon=True)
                    box.append(t)
                    t.start()
                    t.join(0.03)
            return tr

        sys.settrace(tr)
        try:
            op(sc["a"], 2 if sc["a"] == "queue" else 0)
        except BaseException as e:
            errs.append(vf.exc_info(e))
        finally:
            sys.settrace(None)
        over = not box
        if over:
            intruder()
        for t in box:
            t.join(10)
            if t.is_alive():
                errs.append("deadlock")
        for i in range(n):
            if reqs[i] is None:
                q(i)
        for _ in range(2 * n + 4 * sc["size"]):
            ff.poll()
        for i in range(n):
            r = reqs[i]
            if r["status"] != "Done":
                whys.append("k=%d: request %d stays %s" % (k, i + 1, r["status"]))
                continue
            res = r["result"]
            e, f, v, s = expect(np.array(atoms[i].q), h, doff)
            ok = close(res[0], e, 1e-8) and close(res[1], f, 1e-7)
            if not ok:
                whys.append("k=%d: request %d has energy %r, expected %r" % (k, i + 1, float(res[0]), e))
            ev.append(dict(e="done", p=i + 1, ok=ok, num=i + 1 if ok else 0))
        if errs:
            whys.append("k=%d: %s" % (k, errs[0]))
            ev.append(dict(e="error"))
        ev.append(dict(e="end"))
        traces.append(ev)
        if over or k > 400:
            break
    return dict(traces=traces, trace=traces[0], why=whys)


KIND = dict(preempt=preempt, committee=committee, rotations=rotations, batch=batch, threads=threads, cavity=cavity)


def main():
    scs = json.load(sys.stdin)
    out = []
    for sc in scs:
        box = {}

        def go():
            try:
                box["r"] = KIND[sc["kind"]](sc)
            except BaseException as e:
                box["r"] = dict(error=vf.exc_info(e), inrepo=vf.in_repo(e), trace=[], why=[])

        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(90)
        out.append(box.get("r") or dict(hung=True, trace=[], why=[]))
    vf.emit_result(out)
    sys.stdout.flush()
    os._exit(0)


main()
