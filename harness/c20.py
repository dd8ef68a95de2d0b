"""C20: composition of forces.  Force.tla + histories of two real force
objects + ForceTrace."""

import copy
import json
import random
import traceback

import numpy as np

from harness import simlab, simpes_eval
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of what force objects know (versions of positions and cell, evaluated components, zero weights, transfers) checked with TLC; walks of it are replayed on real Forces objects, every value read is compared with an independent evaluation of the definition and every evaluation of a component is recorded, and the histories are validated against the specification with TLC"
NOTE = "exhaustive on the specification for 2-3 components and bounded numbers of writes; sampled weights, splittings, contractions, open paths and bead numbers on the real code"


def gen(rng):
    nb = rng.choice([1, 2, 3, 4, 5, 6, 8])
    nat = rng.choice([1, 2, 3])
    nc = rng.choice([1, 2, 3])
    nl = rng.choice([1, 1, 2, 3])
    c = dict(nb=nb, nat=nat, nc=nc, nl=nl, seed=rng.randrange(10**8))
    c["open"] = sorted(rng.sample(range(nat), rng.randint(1, nat))) if nb > 1 and rng.random() < 0.3 else []
    c["comp"] = []
    for k in range(nc):
        cb = rng.choice([0, nb, rng.randint(1, nb), rng.randint(1, nb)])
        lw = [rng.choice([0.0, 0.0, 1.0, 1.0, -1.0, 0.5]) for _ in range(nl)]
        if not any(lw):
            lw[rng.randrange(nl)] = 1.0
        c["comp"].append(dict(nb=cb, w=rng.choice([1.0, 1.0, 0.5, -0.7, 2.0, 0.0]), mts=lw, k=rng.uniform(0.01, 0.1), g=rng.uniform(0, 0.02), e=rng.uniform(0, 0.02), extra=rng.random() < 0.5, promote=rng.random() < 0.5))
    if rng.random() < 0.5:
        for x in c["comp"]:
            x["extra"] = True
    return c


def build(c):
    rng = np.random.RandomState(c["seed"] % 2**31)
    nat, nb = c["nat"], c["nb"]
    q = rng.normal(0, 0.6, (1, 3 * nat)) + rng.normal(0, 0.3, (nb, 3 * nat))
    fo = "".join("<force forcefield='f%d' weight='%.17g' nbeads='%d'><mts_weights>%s</mts_weights>%s</force>" % (k + 1, x["w"], x["nb"], simlab.arr(x["mts"]), "<interpolate_extras>[a]</interpolate_extras>" if x["extra"] and x["promote"] else "") for k, x in enumerate(c["comp"]))
    nm = "<normal_modes><open_paths>[%s]</open_paths></normal_modes>" % ", ".join(map(str, c["open"])) if c["open"] else ""
    mo = "<motion mode='dynamics'><dynamics mode='nve'><timestep>1</timestep>%s</dynamics></motion>" % ("<nmts>[%s]</nmts>" % ", ".join(["1"] * c["nl"]))
    s = simlab.system(simlab.beads(q, np.zeros_like(q)), simlab.cell(np.diag([10.0, 11.0, 12.0])), fo, "<temperature>0.001</temperature>", mo, nm=nm)
    ffs = [simlab.ff("f%d" % (k + 1), k=x["k"], g=x["g"], e=x["e"], extra=x["extra"]) for k, x in enumerate(c["comp"])]
    return simlab.load(simlab.simulation([s], ffs, seed=1))


# ---------------------------------------------------------------- definition
def modes(n, is_open):
    """orthonormal modes of a path, slowest first within its kind: {(kind, k): vector}"""
    j = np.arange(n)
    d = {}
    if is_open:
        for k in range(n):
            v = np.cos(np.pi * (j + 0.5) * k / n)
            d[("o", k)] = v / np.linalg.norm(v)
        return d
    for k in range(n // 2 + 1):
        v = np.cos(2 * np.pi * j * k / n)
        d[("c", k)] = v / np.linalg.norm(v)
        if k and 2 * k < n:
            v = np.sin(2 * np.pi * j * k / n)
            d[("s", k)] = v / np.linalg.norm(v)
    return d


def contraction(n1, n2, is_open):
    """matrix taking a path of n1 beads to its n2 slowest modes"""
    if n1 == n2:
        return np.eye(n1)
    a, b = modes(n1, is_open), modes(n2, is_open)
    return np.sqrt(n2 / n1) * sum(np.outer(b[k], a[k]) for k in b)


class Reference:
    def __init__(self, c):
        self.c = c
        nb = c["nb"]
        self.T = []
        for x in c["comp"]:
            n2 = x["nb"] if 0 < x["nb"] <= nb else nb
            self.T.append((n2, contraction(nb, n2, False), contraction(nb, n2, True)))

    def contract(self, k, q):
        n2, Tc, To = self.T[k]
        x = Tc @ q
        for a in self.c["open"]:
            x[:, 3 * a : 3 * a + 3] = To @ q[:, 3 * a : 3 * a + 3]
        return x

    def component(self, k, q, h):
        """raw potentials, forces and virials on the contracted path"""
        p = self.c["comp"][k]
        r = [simpes_eval.evaluate(p["k"], p["g"], p["e"], x, h) for x in self.contract(k, q)]
        return np.array([a[0] for a in r]), np.array([a[1].flatten() for a in r]), np.array([np.triu(a[2]) for a in r])

    def expand(self, k, pots, f, virs):
        n2, Tc, To = self.T[k]
        s = self.c["nb"] / n2
        F = s * Tc.T @ f
        for a in self.c["open"]:
            F[:, 3 * a : 3 * a + 3] = s * To.T @ f[:, 3 * a : 3 * a + 3]
        T = To if self.c["open"] else Tc
        return s * T.T @ pots, F, s * np.tensordot(T.T, virs, axes=(1, 0))


class Lab:
    def __init__(self, c):
        from ipi.utils.depend import dstrip

        self.c = c
        self.ref = Reference(c)
        self.rng = random.Random(c["seed"])
        self.sim = build(c)
        y = self.sim.syslist[0]
        b2, h2 = y.beads.clone(), y.cell.clone()
        self.beads = [y.beads, b2]
        self.cell = [y.cell, h2]
        self.F = [y.forces, y.forces.clone(b2, h2)]
        b2.q[:] = np.array(y.beads.q)
        self.w = [[x["w"] for x in c["comp"]] for _ in (0, 1)]
        # the potential is loaded once per force field
        self.mods = [type(f.driver).compute_structure.__globals__ for f in self.sim.fflist.values()]
        for m in self.mods:
            m["RECORD"][0] = True
        self.drain()
        self.saved = None
        self.ev = [dict(nc=c["nc"], nl=c["nl"], zero=[x["w"] == 0 for x in c["comp"]], level=[[1 if v else 0 for v in x["mts"]] for x in c["comp"]])]

    def drain(self):
        out = []
        for m in {id(m): m for m in self.mods}.values():
            out += m["CALLS"]
            m["CALLS"][:] = []
        return out

    def perturb(self):
        return np.array([[self.rng.gauss(0, 0.2) for _ in range(3 * self.c["nat"])] for _ in range(self.c["nb"])])

    def expect(self, o):
        q, h = np.array(self.beads[o].q), np.array(self.cell[o].h)
        raw = [self.ref.component(k, q, h) for k in range(self.c["nc"])]
        return raw, [self.ref.expand(k, *r) for k, r in enumerate(raw)]

    def read(self, o, what, k):
        c, F, cl = self.c, self.F[o], simlab.close
        ok = []
        calls0 = self.drain()
        assert not calls0
        ask = self.rng.sample(["pot", "f", "vir", "virs", "pots"], self.rng.randint(1, 5))
        got = {}
        if what == "total":
            for a in ask:
                got[a] = np.array(getattr(F, a), float).copy()
            if not c["open"] and self.rng.random() < 0.3:
                got["extras"] = {x: (list(v) if x == "raw" else copy.deepcopy(v)) for x, v in F.extras.items()}
        elif what == "level":
            for a in ask:
                if a in ("f", "vir", "virs"):
                    got[a] = np.array(getattr(F.mts_forces[k - 1], a), float).copy()
            if not got:
                got["f"] = np.array(F.mts_forces[k - 1].f, float).copy()
        else:
            wt = what == "comp"
            m = F.mforces[k - 1]
            inter = self.rng.random() < 0.5
            for a in ask:
                if a == "pots":
                    got[a] = np.array(F.pots_component(k - 1, weighted=wt, interpolate=inter)).copy()
                if a == "f":
                    got[a] = np.array(F.forces_component(k - 1, weighted=wt, interpolate=inter)).copy()
                if a == "virs":
                    got[a] = np.array(F.virs_component(k - 1, weighted=wt, interpolate=inter)).copy()
            if not got:
                got["pots"] = np.array(F.pots_component(k - 1, weighted=wt, interpolate=inter)).copy()
            if not wt and self.rng.random() < 0.3:
                got["extras"] = copy.deepcopy(F.extras_component(k - 1))
        calls = self.drain()
        # ---- which components were evaluated, each bead once and at the right place
        q, h = np.array(self.beads[o].q), np.array(self.cell[o].h)
        ev, whole = [], True
        for x in range(c["nc"]):
            mine = [p for p in calls if p[0] == "f%d" % (x + 1)]
            if mine:
                ev.append(x + 1)
                want = self.ref.contract(x, q)
                have = np.array([p[1].flatten() for p in mine])
                if have.shape != want.shape or not all(any(cl(a, b, 1e-9, 1e-10) for b in want) for a in have) or not all(any(cl(a, b, 1e-9, 1e-10) for b in have) for a in want) or not all(cl(p[2], h, 1e-12) for p in mine):
                    whole = False
        # ---- the values
        raw, full = self.expect(o)
        w = self.w[o]

        def combine(lev):
            P, Fo, V = np.zeros(c["nb"]), np.zeros((c["nb"], 3 * c["nat"])), np.zeros((c["nb"], 3, 3))
            for x in range(c["nc"]):
                s = w[x] * (sum(c["comp"][x]["mts"]) if lev is None else c["comp"][x]["mts"][lev])
                P, Fo, V = P + s * full[x][0], Fo + s * full[x][1], V + s * full[x][2]
            return dict(pots=P, pot=P.sum(), f=Fo, virs=V, vir=V.sum(axis=0))

        if what in ("total", "level"):
            d = combine(None if what == "total" else k - 1)
        else:
            s = w[k - 1] if what == "comp" else 1.0
            r = full[k - 1] if inter else raw[k - 1]
            d = dict(pots=s * r[0], f=s * r[1], virs=s * r[2])
        bad = []
        for a, v in got.items():
            if a == "extras":
                e = self.extras(o, what, k, raw)
                if not self.same_extras(v, e):
                    bad.append("extras %r %r" % (v, e))
            elif not cl(v, d[a], 1e-8, 1e-9):
                bad.append(a)
        e = dict(e="read", o=o + 1, what=what, k=k, ok=not bad, ev=ev, whole=whole)
        if bad:
            e["bad"] = bad[:3]
        self.ev.append(e)

    # ---- extras
    def extras(self, o, what, k, raw):
        c = self.c
        out = {}
        for x in range(c["nc"]):
            p = c["comp"][x]
            if what == "raw" and x != k - 1 or what == "total" and self.w[o][x] == 0:
                continue
            if not p["extra"]:
                continue
            n2 = self.ref.T[x][0]
            a = np.array([[raw[x][0][b], raw[x][1][b][0]] for b in range(n2)])
            txt = ['{"a": [%.15e, %.15e]}' % tuple(v) if p["extra"] else "" for v in a]
            if what == "raw":
                out["raw"] = txt
                if p["extra"]:
                    out["a"] = a
                continue
            if n2 == c["nb"]:
                out["raw"] = [u + v for u, v in zip(out["raw"], txt)] if "raw" in out else txt
            if p["extra"] and p["promote"]:
                s = self.w[o][x] * sum(p["mts"])
                n2, Tc, To = self.ref.T[x]
                ex = s * c["nb"] / n2 * (Tc.T @ a) if n2 != c["nb"] else s * a
                out.setdefault("sum", []).append(ex)
            elif p["extra"] and n2 == c["nb"]:
                out["plain"] = True
        return out

    def same_extras(self, v, e):
        import re

        num = re.compile(r"-?\d\.\d+e[-+]\d+")

        def texts(a):
            return [[re.sub(num, "#", t) for t in a], [[float(x) for x in num.findall(t)] for t in a]]

        if ("raw" in v) != ("raw" in e):
            return False
        if "raw" in e:
            if self.c["open"]:
                return True
            a, b = texts(v["raw"]), texts(e["raw"])
            if a[0] != b[0] or not all(simlab.close(x, y, 1e-8, 1e-9) for x, y in zip(a[1], b[1])):
                return False
        if "a" in e and not simlab.close(v["a"], e["a"], 1e-8, 1e-9):
            return False
        if "sum" in e and "plain" not in e and not self.c["open"]:
            if not simlab.close(v["a"], sum(e["sum"]), 1e-8, 1e-9):
                return False
        return True

    # ---- writes
    def write(self, o, what):
        B, H = self.beads[o], self.cell[o]
        if what == "q":
            r = self.rng.randrange(4)
            d = self.perturb()
            if r == 0:
                B.q = np.array(B.q) + d
            elif r == 1:
                B.q[:] = np.array(B.q) + d
            elif r == 2:
                b = self.rng.randrange(self.c["nb"])
                B.q[b] = np.array(B.q[b]) + d[b]
            else:
                b, x = self.rng.randrange(self.c["nb"]), self.rng.randrange(3 * self.c["nat"])
                B.q[b, x] += d[b, x]
        else:
            H.h = np.array(H.h) * (1 + 0.1 * self.rng.random())
        self.ev.append(dict(e="write", o=o + 1, what=what))

    def sync(self, o):
        f = 1 - o
        self.beads[o].q[:] = np.array(self.beads[f].q)
        self.cell[o].h = np.array(self.cell[f].h)
        self.ev.append(dict(e="sync", o=o + 1, **{"from": f + 1}))

    def weight(self, c, on):
        v = self.rng.choice([1.0, 0.3, -0.5, 2.0]) if on else 0.0
        self.F[0].mforces[c - 1].weight = v
        self.w[0][c - 1] = v
        self.ev.append(dict(e="weight", c=c, on=on))

    def run(self):
        """a random walk with the actions of the specification"""
        c, r = self.c, self.rng
        for _ in range(r.choice([10, 25, 40])):
            x = r.random()
            o = r.choice([0, 0, 1])
            if x < 0.40:
                what = r.choice(["total", "total", "level", "raw", "comp"])
                k = 0 if what == "total" else r.randint(1, c["nl"]) if what == "level" else r.randint(1, c["nc"])
                self.read(o, what, k)
            elif x < 0.60:
                self.write(o, r.choice(["q", "q", "h"]))
            elif x < 0.68:
                self.sync(o)
            elif x < 0.78:
                self.weight(r.randint(1, c["nc"]), r.random() < 0.6)
            elif x < 0.90:
                # the idiom: try on the clone, take over positions and forces
                f = 1 - o
                if r.random() < 0.7:
                    self.read(f, "total", 0)
                self.sync(o)
                self.F[o].transfer_forces(self.F[f])
                self.ev.append(dict(e="transfer", o=o + 1, **{"from": f + 1}))
            elif x < 0.95 or self.saved is None:
                self.saved = (np.array(self.beads[0].q), np.array(self.cell[0].h), self.F[0].dump_state())
                self.ev.append(dict(e="dump"))
            else:
                self.beads[0].q[:] = self.saved[0]
                self.cell[0].h = self.saved[1]
                self.F[0].load_state(self.saved[2])
                self.ev.append(dict(e="load"))
        for o in (0, 1):
            self.read(o, "total", 0)
        return self.ev


def session(c):
    with simlab.Silent():
        lab = None
        try:
            lab = Lab(c)
            return lab.run()
        except Exception:
            ev = lab.ev if lab else [dict(nc=c["nc"], nl=c["nl"], zero=[False] * c["nc"], level=[[1] * c["nl"]] * c["nc"])]
            return ev + [dict(e="error", why=traceback.format_exc()[-900:])]


def run(ctx):
    for nc, ck in [(2, ctx.n(2, 3)), (3, ctx.n(2, 3))]:
        ctx.tlc_stats(vf.must_tlc("ForceMC", "CONSTANTS NC=%d Clock=%d\nSPECIFICATION Spec\nCONSTRAINT Bound\nINVARIANT Inv\nPROPERTY Act\nCHECK_DEADLOCK FALSE\n" % (nc, ck), timeout=3000))
    rng = random.Random(ctx.seed)
    jobs = [gen(rng) for _ in range(ctx.n(200, 5000))]
    traces = vf.procmap(session, jobs, workers=8, timeout=ctx.n(600, 6000), fresh=10)
    ctx.traces(len(traces))
    _, good = vf.validate_traces("ForceTrace", "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", traces, timeout=900)
    for j, t, p in zip(jobs, traces, good):
        if p < len(t):
            ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(t[p])[:300]), dict(job=j, trace=t[max(0, p - 8) : p + 1]))
    ctx.sample(dict(job=jobs[0], trace=traces[0][:30]))
    ctx.assumptions += [
        "forces are transferred between objects at the same positions and cell",
        "with open paths the per-bead potentials and extras of a contracted component have no unique definition; only their sums are relied on there",
    ]
