"""C12: time steps as symmetric splittings.  Split.tla + words of the
specification interpreted by an independent propagator, step by step against
real simulations; barostats by time reversal and order of convergence."""

import random
import traceback

import numpy as np

from harness import simlab, simpes_eval
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of a time step as a symmetric splitting with nested multiple time steps, checked with TLC; words of propagations generated by TLC are carried out by an independent numerical propagator and compared with every step of real simulations; constant-pressure integrators additionally by time reversal and order of convergence"
NOTE = "exhaustive on the specification for up to 4 levels with up to 4 blocks each and both thermostat splittings; sampled nestings, beads, propagators, constraints, biases and weights on the real code"

KB = 3.1668152037e-06
FP = [dict(k=0.05, g=0.02, e=0.02), dict(k=0.03, g=0.0, e=0.03), dict(k=0.02, g=0.03, e=0.0)]
BP = dict(k=0.02, g=0.01, e=0.0)


def setup_of(word):
    """[m, mode] of a word of the specification"""
    n = {}
    for a in word:
        if a["k"] == "B":
            n[a["l"]] = n.get(a["l"], 0) + 1
    m, last = [], 2
    for l in sorted(n):
        m.append(n[l] // last)
        last = n[l]
    o = [i for i, a in enumerate(word) if a["k"] == "O"]
    return m, ("none" if not o else "obabo" if len(o) == 2 else "baoab")


def gen(rng, word):
    m, mode = setup_of(word)
    kind = "nve" if mode == "none" else rng.choice(["nvt", "nvt", "nvt", "nvt-cc"])
    if mode != "none" and m[0] == 1 and len(m) > 1 and rng.random() < 0.7:
        kind = "sc"
    nm = m[1:] if kind == "sc" else m
    nat = rng.choice([1, 2, 3])
    nb = rng.choice([2, 4]) if kind == "sc" else rng.choice([1, 1, 2, 3, 4, 5])
    nf = rng.choice([1, 2, 3])
    L = len(nm)
    w = []
    for _ in range(nf):
        v = [0.0] * L
        v[rng.randrange(L)] = 1.0
        if rng.random() < 0.4:
            a, b, x = rng.randrange(L), rng.randrange(L), rng.choice([1.0, 0.3])
            v[a] += x
            v[b] -= x
        w.append(v)
    fix = rng.choice(["", "", "", "com", "atoms"])
    if kind == "sc" and fix == "com":
        fix = ""
    if fix == "com" and nat == 1:
        fix = ""
    fixed = sorted(rng.sample(range(nat), rng.randrange(1, nat + 1))) if fix == "atoms" and nat > 1 else []
    if fix == "atoms" and not fixed:
        fix = ""
    if len(fixed) == nat:
        fixed = fixed[:-1]
    c = dict(kind=kind, m=nm, mode=mode, word=[[a["k"], a["l"], a["d"]] for a in word], nat=nat, nb=nb, nf=nf, w=w, fix=fix, fixed=fixed, seed=rng.randrange(10**8), T=rng.uniform(200, 2000) * KB)
    c["wt"] = [rng.choice([1.0, 0.5, 1.3]) for _ in range(nf)]
    c["rpc"] = nf > 1 and nb > 1 and kind != "sc" and rng.random() < 0.3
    c["bias"] = rng.choice([0, 0, 1])
    c["hw"] = [rng.choice([1.0, 1.0, 1.0, rng.uniform(0.3, 1.6)]) for _ in range(nf)] if kind != "sc" else [1.0] * nf
    c["prop"] = rng.choice(["exact", "exact", "cayley"])
    c["open"] = sorted(rng.sample(range(nat), 1)) if nb > 1 and rng.random() < 0.2 and kind == "nve" and not c["rpc"] else []
    c["dts"] = [rng.uniform(5, 25)] * rng.choice([1, 2]) + ([rng.uniform(5, 25)] if rng.random() < 0.5 else [])
    c["tau"] = rng.uniform(50, 500)
    return c


def build(c):
    rng = np.random.RandomState(c["seed"] % 2**31)
    nat, nb = c["nat"], c["nb"]
    m = rng.uniform(1500, 4000, nat)
    q = rng.normal(0, 0.4, (1, 3 * nat)) + rng.normal(0, 0.1, (nb, 3 * nat))
    p = rng.normal(0, 1, (nb, 3 * nat)) * np.sqrt(np.repeat(m, 3) * c["T"] * nb)
    x = "<temperature>%.17g</temperature>" % c["T"]
    if c["bias"]:
        x += "<bias><force forcefield='b0'/></bias><bias_weights>[0.7]</bias_weights>"
    if any(h != 1 for h in c["hw"]):
        x += "<hamiltonian_weights>%s</hamiltonian_weights>" % simlab.arr(c["hw"])
    fo = "".join("<force forcefield='f%d' weight='%r' %s><mts_weights>%s</mts_weights></force>" % (k, c["wt"][k], "nbeads='1'" if c["rpc"] and k == 1 else "", simlab.arr(c["w"][k])) for k in range(c["nf"]))
    th = "" if c["kind"] == "nve" else "<thermostat mode='langevin'><tau>%r</tau></thermostat>" % c["tau"]
    sp = "" if c["kind"] == "nve" else "splitting='%s'" % c["mode"]
    mo = "<motion mode='dynamics'><fixcom>%s</fixcom>%s<dynamics mode='%s' %s><timestep>%r</timestep><nmts>[%s]</nmts>%s</dynamics></motion>" % (c["fix"] == "com", "<fixatoms>[%s]</fixatoms>" % ", ".join(map(str, c["fixed"])) if c["fixed"] else "", c["kind"], sp, c["dts"][0], ", ".join(map(str, c["m"])), th)
    nm = "<normal_modes propagator='%s'>%s</normal_modes>" % (c["prop"], "<open_paths>[%s]</open_paths>" % ", ".join(map(str, c["open"])) if c["open"] else "")
    s = simlab.system(simlab.beads(q, p, m), simlab.cell(np.diag([20.0, 21.0, 22.0])), fo, x, mo, nm=nm)
    ffs = [simlab.ff("f%d" % k, **FP[k]) for k in range(c["nf"])] + ([simlab.ff("b0", **BP)] if c["bias"] else [])
    return simlab.load(simlab.simulation([s], ffs, seed=1 + c["seed"] % 999))


class Ref:
    """propagates q and p according to a word of the specification"""

    def __init__(self, c, q, p, m, h):
        self.c, self.q, self.p, self.h = c, np.array(q), np.array(p), np.array(h)
        self.m = np.array(m)
        self.m3 = np.repeat(self.m, 3)[None, :]
        self.acc = 0.0  # energy given to the system by the thermostat and the constraints
        nb = c["nb"]
        self.wn = nb * c["T"]
        # normal modes of closed and open paths, from the stiffness matrix
        K = 2 * np.eye(nb) - np.roll(np.eye(nb), 1, 0) - np.roll(np.eye(nb), -1, 0) if nb > 2 else np.array([[2.0, -2.0], [-2.0, 2.0]]) if nb == 2 else np.zeros((1, 1))
        Ko = 2 * np.eye(nb) - np.eye(nb, k=1) - np.eye(nb, k=-1)
        Ko[0, 0] -= 1
        Ko[-1, -1] -= 1
        if nb == 1:
            Ko = np.zeros((1, 1))
        self.modes = []
        for M in (K, Ko):
            e, u = np.linalg.eigh(M)
            self.modes.append((np.sqrt(np.clip(e, 0, None)) * self.wn, u))
        self.cols = [np.array([a for a in range(3 * c["nat"]) if (a // 3 in c["open"]) == bool(o)], int) for o in (0, 1)]
        self.fixed = np.array([3 * a + k for a in c["fixed"] for k in range(3)], int)

    def comp(self, par, q, contracted=False):
        ev = lambda x: simpes_eval.evaluate(par["k"], par["g"], par["e"], x, self.h)
        if contracted:
            e, f, _ = ev(q.mean(axis=0))
            return len(q) * e, np.tile(f.flatten(), (len(q), 1)), np.full(len(q), e)
        r = [ev(x) for x in q]
        return sum(x[0] for x in r), np.array([x[1].flatten() for x in r]), np.array([x[0] for x in r])

    def all(self, q):
        return [self.comp(FP[k], q, self.c["rpc"] and k == 1) for k in range(self.c["nf"])]

    def extra(self, q, parts):
        """bias and change of the Hamiltonian weights: energy, force"""
        c = self.c
        e, f = 0.0, np.zeros_like(q)
        if c["bias"]:
            b = self.comp(BP, q)
            e, f = e + 0.7 * b[0], f + 0.7 * b[1]
        for k in range(c["nf"]):
            e, f = e + (c["hw"][k] - 1) * c["wt"][k] * parts[k][0], f + (c["hw"][k] - 1) * c["wt"][k] * parts[k][1]
        return e, f

    def total(self, q):
        return sum(w * f[1] for w, f in zip(self.c["wt"], self.all(q)))

    def c1(self):
        return np.array([[-1 / 3.0 if b % 2 == 0 else 1 / 3.0] for b in range(self.c["nb"])])

    def c2(self):
        return np.array([[0.0 if b % 2 == 0 else 1 / 9.0 / self.wn**2] for b in range(self.c["nb"])])

    def force(self, l):
        c, q = self.c, self.q
        if c["kind"] == "sc":
            if l == 1:
                f = self.total(q)
                d = f / self.m3
                e = 1e-3 / max(np.abs(d).max(), 1e-9)
                return self.c2() * (self.total(q - e * d) - self.total(q + e * d)) / e * 1.0
            l -= 1
        parts = self.all(q)
        f = sum(c["wt"][k] * c["w"][k][l - 1] * parts[k][1] for k in range(c["nf"]))
        if c["kind"] == "sc":
            f = f * (1 + self.c1())
        if l == 1:
            f = f + self.extra(q, parts)[1]
        return f

    def kin(self, p=None):
        p = self.p if p is None else p
        return float((p**2 / self.m3).sum() / 2)

    def constrain(self, count=True):
        c, k0 = self.c, self.kin()
        if c["kind"] == "nvt-cc":
            self.p -= self.p.mean(axis=0)[None, :]
        if not count:
            k0 = self.kin()
        if c["fix"] == "com":
            v = self.p.reshape(-1, 3).sum(axis=0) / (self.m.sum() * len(self.p))
            self.p -= self.m3 * np.tile(v, c["nat"])[None, :]
        self.p[:, self.fixed] = 0.0
        self.acc += self.kin() - k0

    def do(self, k, l, t, noise):
        if k == "B":
            f = self.force(l)
            f[:, self.fixed] = 0
            self.p += t * f
            self.constrain(False)
        elif k == "O":
            k0 = self.kin()
            T = np.exp(-t / self.c["tau"])
            self.p = T * self.p + np.sqrt(self.m3 * self.wn * (1 - T * T)) * noise.pop(0).reshape(self.p.shape)
            self.acc += self.kin() - k0
            self.constrain()
        else:
            qfix = self.q[:, self.fixed].copy()
            for (w, u), cols in zip(self.modes, self.cols):
                if len(cols) == 0:
                    continue
                sm = np.sqrt(self.m3[:, cols])
                x, y = u.T @ (self.q[:, cols] * sm), u.T @ (self.p[:, cols] / sm)
                for b in range(len(w)):
                    if w[b] < 1e-6 * self.wn:
                        x[b] += t * y[b]
                    elif self.c["prop"] == "cayley":
                        A = np.array([[0, -w[b] ** 2], [1, 0]])
                        M = np.linalg.solve(np.eye(2) - t / 2 * A, np.eye(2) + t / 2 * A)
                        y[b], x[b] = M[0, 0] * y[b] + M[0, 1] * x[b], M[1, 0] * y[b] + M[1, 1] * x[b]
                    else:
                        C, S = np.cos(w[b] * t), np.sin(w[b] * t)
                        y[b], x[b] = C * y[b] - w[b] * S * x[b], S / w[b] * y[b] + C * x[b]
                self.q[:, cols], self.p[:, cols] = (u @ x) / sm, (u @ y) * sm
            self.q[:, self.fixed], self.p[:, self.fixed] = qfix, 0.0

    def step(self, dt, noise):
        N = 1
        for x in self.c["m"]:
            N *= x
        for k, l, d in self.c["word"]:
            self.do(k, l, d * dt / (2 * N), noise)

    def econs(self):
        c, q, nb = self.c, self.q, self.c["nb"]
        parts = self.all(q)
        E = self.kin() + sum(c["wt"][k] * parts[k][0] for k in range(c["nf"])) + self.extra(q, parts)[0] - self.acc
        d = ((q - np.roll(q, -1, axis=0)) ** 2).reshape(nb, -1, 3).sum(axis=2)
        for a in c["open"]:
            d[-1, a] = 0
        if nb > 1:
            E += 0.5 * self.wn**2 * float((d * self.m[None, :]).sum())
        if c["kind"] == "sc":
            f = self.total(q)
            E += float((self.c1()[:, 0] * sum(c["wt"][k] * parts[k][2] for k in range(c["nf"]))).sum() + (self.c2() * f * f / self.m3).sum())
        return E


def one(c):
    why = []
    with simlab.Silent():
        try:
            sim = build(c)
            y = sim.syslist[0]
            noise = []
            rng = np.random.RandomState(c["seed"] % 2**31 + 1)

            class Prng:
                def gvec(s, shape):
                    v = rng.normal(size=shape)
                    noise.append(v)
                    return v.copy()

            y.motion.thermostat.prng = Prng()
            if c["fixed"] or c["fix"] or c["kind"] == "nvt-cc":
                # the first step starts from constrained momenta
                y.beads.p[:] = np.array(y.beads.p)
            r = Ref(c, y.beads.q, y.beads.p, y.beads.m, y.cell.h)
            if c["kind"] == "nvt-cc":
                p = np.array(y.beads.p)
                y.beads.p[:] = p - p.mean(axis=0)[None, :]
                r.p = np.array(y.beads.p)
            q0, e0, r0 = np.array(y.beads.q), float(y.ensemble.econs), r.econs()
            t = float(y.ensemble.time)
            tol = 3e-6 if c["kind"] == "sc" else 1e-9
            for n, dt in enumerate(c["dts"]):
                if n and dt != c["dts"][n - 1]:
                    y.motion.dt = dt
                y.motion.step(n)
                r.step(dt, noise)
                t += dt
                what = "step %d%s" % (n, " (after a change of the time step)" if n and dt != c["dts"][n - 1] else "")
                if noise:
                    why.append("%s: more thermostat pieces than there should be" % what)
                    break
                for name, a, b, s in (("q", y.beads.q, r.q, 1.0), ("p", y.beads.p, r.p, np.abs(r.p).max() + 1e-3)):
                    d = np.abs(np.array(a) - b).max() / s
                    if not d < tol:
                        why.append("%s: %s off by %.2e" % (what, name, d))
                if not abs((float(y.ensemble.econs) - e0) - (r.econs() - r0)) < 1e-9 + 20 * tol * abs(r.econs()):
                    why.append("%s: conserved quantity changed by %.10g instead of %.10g" % (what, float(y.ensemble.econs) - e0, r.econs() - r0))
                if not abs(float(y.ensemble.time) - t) < 1e-9 * t:
                    why.append("%s: time %r instead of %r" % (what, float(y.ensemble.time), t))
                if why:
                    break
        except Exception:
            why.append("raised " + traceback.format_exc()[-800:])
    return dict(c=c, why=why)


# ---------------------------------------------------------------- constant pressure
def gen_p(rng):
    kind = rng.choice(["npt", "npt", "nst", "scnpt"])
    baro = {"npt": rng.choice(["isotropic", "flexible"]), "nst": "anisotropic", "scnpt": "sc-isotropic"}[kind]
    L = rng.choice([1, 2, 3])
    m = [rng.choice([1, 2, 3]) for _ in range(L)]
    nb = rng.choice([2, 4]) if kind == "scnpt" else rng.choice([1, 2, 3])
    nf = rng.choice([1, 2])
    w = []
    for _ in range(nf):
        v = [0.0] * L
        v[rng.randrange(L)] = 1.0
        w.append(v)
    return dict(kind=kind, baro=baro, m=m, nat=rng.choice([2, 3]), nb=nb, nf=nf, w=w, mode=rng.choice(["obabo", "baoab"]), bias=rng.choice([0, 0, 1]), seed=rng.randrange(10**8), T=rng.uniform(300, 1500) * KB, fix="", change=rng.random() < 0.4, hfix=rng.random() < 0.8)


def sheared(c):
    return c["baro"] in ("flexible", "anisotropic")


def build_p(c, dt):
    rng = np.random.RandomState(c["seed"] % 2**31)
    nat, nb = c["nat"], c["nb"]
    m = rng.uniform(1500, 4000, nat)
    q = rng.normal(0, 0.4, (1, 3 * nat)) + rng.normal(0, 0.05, (nb, 3 * nat))
    p = rng.normal(0, 1, (nb, 3 * nat)) * np.sqrt(np.repeat(m, 3) * c["T"] * nb)
    P = "<stress>[1e-4,2e-5,1e-5,2e-5,2e-4,3e-5,1e-5,3e-5,1.5e-4]</stress>" if c["kind"] == "nst" else "<pressure>1e-4</pressure>"
    x = "<temperature>%.17g</temperature>%s" % (c["T"], P)
    if c["bias"]:
        x += "<bias><force forcefield='b0'/></bias><bias_weights>[0.7]</bias_weights>"
    fo = "".join("<force forcefield='f%d' fd_epsilon='-1e-4'><mts_weights>%s</mts_weights></force>" % (k, simlab.arr(c["w"][k])) for k in range(c["nf"]))
    off = "<thermostat mode='langevin'><tau>%r</tau></thermostat>" % c.get("tau", 1e20)
    ba = "<barostat mode='%s'><tau>300</tau>%s%s%s</barostat>" % (c["baro"], off, "<h0>[6,0.3,0.1,0,7,0.2,0,0,6.5]</h0>" if c["baro"] == "anisotropic" else "", "<hfix>[offdiagonal]</hfix>" if sheared(c) and c["hfix"] else "")
    mo = "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='%s' splitting='%s'><timestep>%r</timestep><nmts>[%s]</nmts>%s%s</dynamics></motion>" % (c["kind"], c["mode"], dt, ", ".join(map(str, c["m"])), off, ba)
    h = np.array([[6.0, 0.3, 0.1], [0, 7, 0.2], [0, 0, 6.5]])
    s = simlab.system(simlab.beads(q, p, m), simlab.cell(h), fo, x, mo)
    ffs = [simlab.ff("f%d" % k, **FP[k]) for k in range(c["nf"])] + ([simlab.ff("b0", **BP)] if c["bias"] else [])
    return simlab.load(simlab.simulation([s], ffs, seed=1 + c["seed"] % 999))


def pressure(c):
    """time reversal, and the drift of the conserved quantity with the time step"""
    why = []
    info = {}
    with simlab.Silent():
        try:
            sim = build_p(c, 8.0)
            y = sim.syslist[0]
            if c["change"]:
                y.motion.step(0)
                y.motion.dt = 6.0
            get = lambda: [np.array(v, float).copy() for v in (y.beads.q, y.beads.p, y.cell.h, y.motion.barostat.p)]
            a = get()
            for n in range(4):
                y.motion.step(n)
            b = get()
            y.beads.p[:] = -b[1]
            y.motion.barostat.p = -b[3] if b[3].shape else -float(b[3])
            for n in range(4):
                y.motion.step(n)
            z = get()
            z[1], z[3] = -z[1], -z[3]
            d = [float(np.abs(u - v).max() / (np.abs(v).max() + np.abs(w).max())) for u, v, w in zip(z, a, b)]
            mv = [float(np.abs(u - v).max() / (np.abs(v).max() + np.abs(w).max())) for u, v, w in zip(b, a, b)]
            info = dict(back=d, moved=mv)
            if not max(d) < 1e-7:
                why.append("4 steps forth and back miss the start by %s (relative; positions, momenta, cell, cell momenta)" % d)
            drift, extra = [], []
            for dt in (8.0, 4.0, 2.0):
                sim = build_p(c, dt)
                y = sim.syslist[0]
                # no thermostat acts here: what it is given is only the work on fixed entries of the cell
                work = lambda: float(y.motion.barostat.thermostat.ethermo) if c["hfix"] and sheared(c) else 0.0
                w0 = work()
                e0, w = float(y.ensemble.econs) - w0, 0.0
                for n in range(int(48 / dt)):
                    y.motion.step(n)
                    if (n + 1) * dt % 8 == 0:
                        w = max(w, abs(float(y.ensemble.econs) - work() - e0))
                drift.append(w)
                extra.append(work() - w0)
            info["drift"] = drift
            if drift[1] > 1e-9 and not 3.3 < drift[1] / drift[2] < 4.8 or not drift[0] < 0.1:
                why.append("the error of the conserved quantity is %s for time steps 8, 4, 2: not of second order" % drift)
            if max(map(abs, extra)) > 1e-12:
                why.append("fixed entries of the cell take up the energy %s for time steps 8, 4, 2" % extra)
            # the thermostats of atoms and cell act for one time step
            sim = build_p(dict(c, tau=200.0), 8.0)
            y = sim.syslist[0]
            logs = []
            for th in (y.motion.thermostat, y.motion.barostat.thermostat):
                log = []
                logs.append(log)

                class Prng:
                    def gvec(s, shape):
                        s.log.append(float(s.th.T))
                        return np.zeros(shape)

                th.prng = Prng()
                th.prng.th, th.prng.log = th, log
            for n, dt in enumerate((8.0, 8.0, 5.0)):
                y.motion.dt = dt
                t0 = float(y.ensemble.time)
                for log in logs:
                    del log[:]
                y.motion.step(n)
                for name, log in zip(("atoms", "cell"), logs):
                    if not abs(np.sum(np.log(log)) + dt / 200.0) < 1e-9 * dt:
                        why.append("the thermostat of the %s acted for %r instead of %r" % (name, -float(np.sum(np.log(log))) * 200, dt))
                if not abs(float(y.ensemble.time) - t0 - dt) < 1e-9:
                    why.append("a step of %r took %r" % (dt, float(y.ensemble.time) - t0))
        except Exception:
            why.append("raised " + traceback.format_exc()[-800:])
    return dict(c=c, why=why, info=info)


CFG = "SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\nCONSTANTS Levels = %d Most = %d\n"


def run(ctx):
    for levels, most in [(3, 4)] if ctx.tier == "quick" else [(3, 5), (4, 3)]:
        ctx.tlc_stats(vf.must_tlc("SplitMC", CFG % ("INVARIANT Inv\nPROPERTY Ending\n", levels, most), timeout=3000))
    rng = random.Random(ctx.seed)
    words = vf.sim_walks("SplitMC", CFG % ("", 3, 3), ctx.n(170, 3000), 400, seed=ctx.seed)
    words += vf.sim_walks("SplitMC", CFG % ("", 1, 5), ctx.n(30, 300), 100, seed=ctx.seed)
    words += vf.sim_walks("SplitMC", CFG % ("", 2, 5), ctx.n(40, 300), 400, seed=ctx.seed)
    jobs = [("step", gen(rng, w)) for w in words] + [("pressure", gen_p(rng)) for _ in range(ctx.n(60, 1500))]
    rng.shuffle(jobs)
    for r in vf.procmap(job, jobs, workers=8, timeout=ctx.n(700, 8000), fresh=10):
        ctx.traces(1)
        ctx.count(r["c"]["kind"])
        if r["why"]:
            # a cell whose shape changes: only the known lack of reversibility and conservation
            known = "baro" in r["c"] and sheared(r["c"]) and not r["c"]["hfix"] and all(w.startswith(("4 steps forth", "the error of the conserved")) for w in r["why"]) and max(r["info"]["back"][:3]) < 1e-2
            # fixed entries of the cell: only the first-order account of the forces on them
            work = "baro" in r["c"] and sheared(r["c"]) and r["c"]["hfix"] and all(w.startswith("fixed entries") for w in r["why"])
            ctx.violation(r["why"][0], dict(job=r["c"], why=r["why"]), key="barostat-offdiagonal" if known else "barostat-hfix-work" if work else None)
    ctx.sample(dict(job=jobs[0][1]))
    ctx.assumptions += [
        "thermostat pieces are those of a white-noise Langevin thermostat; other thermostats are applied at the same places",
        "constant-pressure integrators are judged by exact time reversal, second-order conservation and the total thermostat time instead of an independent propagator",
        "fixed atoms are not combined with a fixed centre of mass",
    ]


def job(j):
    return one(j[1]) if j[0] == "step" else pressure(j[1])
