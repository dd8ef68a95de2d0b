"""C16: Monte Carlo exchanges.  Mc.tla + scripted random numbers on real
simulations + McTrace."""

import json
import random
import traceback

import numpy as np

from harness import simlab, simpes_eval
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of Monte Carlo exchange rounds checked with TLC; real simulations (atom swap and isotope exchange, alone or between pieces of dynamics) are driven with scripted random numbers placed around an independently computed Metropolis probability and every observed state is validated against the specification with TLC"
NOTE = "exhaustive on the specification for up to 4 atoms over all histories of draws and outcomes; sampled compositions, beads, open paths, force components, biases and Hamiltonian weights on the real code"

KB = 3.1668152037e-06
MASS = {"A": 1837.0, "B": 3674.5, "C": 7349.0}


def gen(rng):
    nat = rng.choice([2, 3, 4, 5])
    while True:
        names = [rng.choice("ABC") for _ in range(nat)]
        listed = rng.choice([["A", "B"], ["A", "B", "C"], ["B", "A"], ["A", "C"]])
        if len({x for x in names if x in listed}) > 1:
            break
    nb = rng.choice([1, 1, 2, 3, 4])
    kind = rng.choice(["swap", "alchemy"])
    nf = rng.choice([1, 1, 2])
    nbias = rng.choice([0, 0, 1])
    c = dict(kind=kind, nat=nat, names=names, listed=listed, nb=nb, nf=nf, nbias=nbias, seed=rng.randrange(10**8), T=rng.uniform(200, 3000) * KB, rounds=rng.choice([3, 5, 8]))
    c["bw"] = [rng.uniform(0.3, 2) for _ in range(nbias)]
    c["hw"] = [rng.choice([1.0, 1.0, rng.uniform(0.3, 1.6)]) for _ in range(nf)]
    c["open"] = sorted(rng.sample(range(nat), rng.choice([0, 0, 0, 1]))) if nb > 1 else []
    c["rpc"] = rng.choice([0, 0, 1]) if nf > 1 and nb > 1 else 0
    c["dyn"] = rng.choice([None, "nve", "nvt", "npt", "nvt"])
    c["masses"] = rng.choice(["same", "species", "species"])
    return c


FP = [dict(k=0.02, g=0.01, e=0.02), dict(k=0.03, g=0.0, e=0.01)]
BP = [dict(k=0.01, g=0.01, e=0.0)]


def build(c):
    rng = np.random.RandomState(c["seed"] % 2**31)
    nat, nb = c["nat"], c["nb"]
    m = np.array([MASS[x] if c["masses"] == "species" else 1837.0 for x in c["names"]])
    q = rng.normal(0, 0.35, (1, 3 * nat)) + rng.normal(0, 0.1, (nb, 3 * nat))
    p = rng.normal(0, 1, (nb, 3 * nat)) * np.sqrt(np.repeat(m, 3) * c["T"] * nb)
    x = "<temperature>%.17g</temperature><pressure>1e-5</pressure>" % c["T"]
    if c["nbias"]:
        x += "<bias>%s</bias><bias_weights>%s</bias_weights>" % ("<force forcefield='b0'/>", simlab.arr(c["bw"]))
    x += "<hamiltonian_weights>%s</hamiltonian_weights>" % simlab.arr(c["hw"])
    fo = "".join("<force forcefield='f%d' weight='%s' %s/>" % (k, [1.0, 0.5][k], "nbeads='1'" if c["rpc"] and k == 1 else "") for k in range(c["nf"]))
    tag = "atomswap" if c["kind"] == "swap" else "alchemy"
    mc = "<motion mode='%s'><%s><names>[%s]</names><nxc>2</nxc></%s></motion>" % (tag, tag, ", ".join(c["listed"]), tag)
    if c["dyn"]:
        th = "" if c["dyn"] == "nve" else "<thermostat mode='langevin'><tau units='femtosecond'>50</tau></thermostat>"
        ba = "<barostat mode='isotropic'><tau units='femtosecond'>100</tau><thermostat mode='langevin'><tau units='femtosecond'>50</tau></thermostat></barostat>" if c["dyn"] == "npt" else ""
        mc = "<motion mode='multi'><motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='%s'><timestep units='femtosecond'>0.3</timestep>%s%s</dynamics></motion>%s</motion>" % (c["dyn"], th, ba, mc)
    nm = "<normal_modes><open_paths>[%s]</open_paths></normal_modes>" % ", ".join(map(str, c["open"])) if c["open"] else ""
    s = simlab.system(simlab.beads(q, p, m, c["names"]), simlab.cell(np.diag([10.0, 11.0, 12.0])), fo, x, mc, nm=nm)
    ffs = [simlab.ff("f%d" % k, **FP[k]) for k in range(c["nf"])] + [simlab.ff("b%d" % k, **BP[k]) for k in range(c["nbias"])]
    return simlab.load(simlab.simulation([s], ffs, seed=1 + c["seed"] % 999))


class Lab:
    def __init__(self, c):
        self.c = c
        self.sim = build(c)
        self.y = self.sim.syslist[0]
        self.rng = random.Random(c["seed"])
        self.mc = self.y.motion.mlist[1] if c["dyn"] else self.y.motion
        lab = self

        class Prng:
            u = property(lambda s: lab.uniform())

            def poisson(s, lam=1.0, size=None):
                assert lam == 2 and size is None, "mean number of tries %r" % lam
                return lab.tries()

            def integers(s, low, high=None, size=None, dtype=None, endpoint=False):
                if high is None:
                    low, high = 0, low
                assert size is None
                return lab.draw(low, high - (0 if not endpoint else -1))

        self.mc.prng = Prng()
        codes = {x: k + 1 for k, x in enumerate("ABC")}
        nat = c["nat"]
        self.ev = [dict(n=nat, kind=c["kind"], names=[codes[x] for x in c["names"]], listed=[x in c["listed"] for x in "ABC"], tries=5, w=[0] * nat, x=[0] * nat)]
        self.label = list(range(nat))  # alchemy: isotope of each atom
        self.m0 = np.array(self.y.beads.m).copy()

    # ------------------------------------------------------------ reference
    def weights(self):
        return [(FP[k], c_w * self.c["hw"][k], (self.c["rpc"] and k == 1)) for k, c_w in zip(range(self.c["nf"]), [1.0, 0.5])] + [(BP[k], self.c["bw"][k], False) for k in range(self.c["nbias"])]

    def energy(self, q, m):
        """full potential energy of the extended system"""
        c, nb = self.c, self.c["nb"]
        h = np.array(self.y.cell.h)
        E = 0.0
        for par, w, contracted in self.weights():
            if contracted:
                E += w * nb * simpes_eval.evaluate(par["k"], par["g"], par["e"], q.mean(axis=0), h)[0]
            else:
                E += w * sum(simpes_eval.evaluate(par["k"], par["g"], par["e"], q[b], h)[0] for b in range(nb))
        return E + self.spring(q, m)

    def spring(self, q, m):
        nb = self.c["nb"]
        if nb == 1:
            return 0.0
        d = (q - np.roll(q, -1, axis=0)) ** 2
        d = d.reshape(nb, -1, 3).sum(axis=2)
        for a in self.c["open"]:
            d[-1, a] = 0
        return 0.5 * (nb * self.c["T"]) ** 2 * float((d * m[None, :]).sum())

    def forces(self, q):
        """physical forces (without bias and Hamiltonian weights) and potential"""
        c, nb = self.c, self.c["nb"]
        h = np.array(self.y.cell.h)
        f, u = np.zeros_like(q), 0.0
        for k, w in zip(range(c["nf"]), [1.0, 0.5]):
            par = FP[k]
            if c["rpc"] and k == 1:
                e, g, _ = simpes_eval.evaluate(par["k"], par["g"], par["e"], q.mean(axis=0), h)
                f += w * g.flatten()[None, :]
                u += w * nb * e
            else:
                for b in range(nb):
                    e, g, _ = simpes_eval.evaluate(par["k"], par["g"], par["e"], q[b], h)
                    f[b] += w * g.flatten()
                    u += w * e
        return f, u

    # ------------------------------------------------------------ observation
    def snap(self):
        y = self.y
        d = dict(q=y.beads.q, p=y.beads.p, m=y.beads.m, h=y.cell.h, f=y.forces.f, pot=y.forces.pot, econs=y.ensemble.econs, kin=y.nm.kin, qc=y.beads.qc, eens=y.ensemble.eens, T=y.ensemble.temp, bw=y.ensemble.bweights, hw=y.ensemble.hweights, spring=y.nm.vspring, qnm=y.nm.qnm, time=y.ensemble.time)
        d = {k: np.array(v, float).copy() for k, v in d.items()}
        d["names"] = [str(x) for x in y.beads.names]
        return d

    def blk(self, v, a):
        return v[:, 3 * a : 3 * a + 3]

    def now(self):
        """observes the state between two tries; base is the state before the round"""
        c, b, v = self.c, self.base, self.snap()
        nat = c["nat"]
        why = []

        def chk(name, ok):
            if not ok:
                why.append(name)

        at = []
        if c["kind"] == "swap":
            for a in range(nat):
                k = [x for x in range(nat) if np.array_equal(self.blk(v["q"], a), self.blk(b["q"], x))]
                at.append(k[0] + 1 if len(k) == 1 else 0)
            chk("momenta", np.array_equal(v["p"], b["p"]))
            chk("masses", np.array_equal(v["m"], b["m"]))
            chk("names", v["names"] == b["names"])
        else:
            chk("positions", np.array_equal(v["q"], b["q"]))
            for a in range(nat):
                o = self.label[a]
                at.append(o + 1)
                chk("mass of atom %d" % a, simlab.close(v["m"][a], self.m0[o], 1e-12))
                chk("name of atom %d" % a, v["names"][a] == c["names"][o])
                r = np.sqrt(self.m0[o] / b["m"][a])
                chk("momentum of atom %d" % a, simlab.close(self.blk(v["p"], a), self.blk(b["p"], a) * r, 1e-11))
            if [x == y for x, y in zip(self.label, self.label0)] == [True] * nat:
                chk("kinetic energy", simlab.close(v["kin"], b["kin"], 1e-12))
        for k in ("h", "T", "bw", "hw", "eens", "time"):
            chk(k, np.array_equal(v[k], b[k]))
        chk("kinetic energy", simlab.close(v["kin"], b["kin"], 1e-11))
        f, u = self.forces(v["q"])
        chk("forces", simlab.close(v["f"], f, 1e-8, 1e-11))
        chk("potential", simlab.close(v["pot"], u, 1e-9))
        chk("spring energy", simlab.close(v["spring"], self.spring(v["q"], v["m"]), 1e-7, 1e-11))
        if self.last_rejected:
            for k in v:
                if k != "names":
                    chk("%s after a rejection" % k, np.array_equal(v[k], self.prev[k]))
        self.prev = v
        con = 0 if simlab.close(v["econs"], b["econs"], 1e-9, 1e-10) else 1
        e = dict(e="now", at=at, con=con, rest=not why)
        if why:
            e["why"] = why[:6]
        self.ev.append(e)

    # ------------------------------------------------------------ scripted random numbers
    def tries(self):
        self.base = self.prev = self.snap()
        self.label0 = list(self.label)
        self.draws, self.last_rejected = [], False
        self.ev.append(dict(e="move"))
        n = self.rng.choice([0, 1, 2, 3, 5])
        self.ev.append(dict(e="round", n=n))
        self.now()
        return n

    def lst(self):
        c = self.c
        return [a for a in range(c["nat"]) if (c["names"][a] if c["kind"] == "swap" else c["names"][self.label0[a]]) in c["listed"]]

    def draw(self, lo, hi):
        L = self.lst()
        assert (lo, hi) == (0, len(L)), "range of the draw %d %d" % (lo, hi)
        if not self.draws and self.ev[-1]["e"] == "decide":
            self.now()
        assert len(self.draws) < 300, "no pair is found"
        k = self.rng.randrange(len(L))
        self.draws.append(L[k])
        self.ev.append(dict(e="draw", a=L[k] + 1))
        return k

    def uniform(self):
        c = self.c
        i, j = self.draws[0], self.draws[-1]
        self.draws = []
        q, m = np.array(self.y.beads.q), np.array(self.y.beads.m)
        q1, m1 = q.copy(), m.copy()
        if c["kind"] == "swap":
            q1[:, 3 * i : 3 * i + 3], q1[:, 3 * j : 3 * j + 3] = self.blk(q, j), self.blk(q, i)
        else:
            m1[i], m1[j] = m[j], m[i]
        d = self.energy(q1, m1) - self.energy(q, m)
        px = float(np.exp(min(50.0, -d / (c["T"] * c["nb"]))))
        if px >= 1 + 1e-7:
            u = self.rng.choice([0.0, 0.5, 1 - 1e-12])
        elif px >= 1 - 1e-7:
            u = self.rng.choice([0.0, 0.5])
        elif px < 1e-13:
            u = 0.5
        else:
            u = self.rng.choice([px * (1 - 1e-6), px * (1 + 1e-6), px * 0.5, min(1 - 1e-12, px * 1.5), self.rng.random(), 0.0])
            if abs(u / px - 1) < 2e-7:
                u = px * 0.5
        low = u < px
        self.ev.append(dict(e="decide", low=bool(low)))
        self.last_rejected = not low
        if low and c["kind"] == "alchemy":
            self.label[i], self.label[j] = self.label[j], self.label[i]
        return u

    def run(self):
        for s in range(self.c["rounds"]):
            if self.rng.random() < 0.2:
                self.y.forces.f
            self.base = None
            self.y.motion.step(s)
            self.sim.step = s
            if self.base is None:
                self.ev.append(dict(e="no round was made"))
                break
            if self.ev[-1]["e"] == "decide":
                self.now()
            self.ev.append(dict(e="end"))
        return self.ev


def session(c):
    with simlab.Silent():
        lab = None
        try:
            lab = Lab(c)
            return lab.run()
        except Exception:
            ev = lab.ev if lab else [dict(n=c["nat"], kind=c["kind"], names=[1] * c["nat"], listed=[True] * 3, tries=5, w=[0] * c["nat"], x=[0] * c["nat"])]
            return ev + [dict(e="error", why=traceback.format_exc()[-900:])]


def run(ctx):
    for k, n, li, t in [("swap", "aab", 2, 2), ("alchemy", "aab", 2, 2), ("swap", "abcb", 2, 2), ("alchemy", "abcb", 3, 2), ("alchemy", "aabb", 2, 3)]:
        ctx.tlc_stats(vf.must_tlc("McMC", 'CONSTANTS Kind="%s" Names="%s" Listed=%d Tries=%d\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Act\nCHECK_DEADLOCK FALSE\n' % (k, n, li, t), timeout=900))
    rng = random.Random(ctx.seed)
    jobs = [gen(rng) for _ in range(ctx.n(120, 3000))]
    traces = vf.procmap(session, jobs, workers=8, timeout=ctx.n(600, 6000), fresh=10)
    ctx.traces(len(traces))
    for t in traces:
        for e in t:
            if e.get("e") == "decide":
                ctx.count("accepted" if e["low"] else "rejected")
    _, good = vf.validate_traces("McTrace", "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", traces, timeout=900)
    for j, t, p in zip(jobs, traces, good):
        if p < len(t):
            ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(t[p])[:300]), dict(job=j, trace=t[max(0, p - 8) : p + 1]))
    ctx.sample(dict(job=jobs[0], trace=traces[0][:30]))
    ctx.assumptions += [
        "the exchanged atoms have at least two different names and are not bosons",
        "partners are drawn uniformly and independently from the list of exchangeable atoms, the second one again while the names agree",
    ]
