"""C13: replica exchange.  Remd.tla + scripted random numbers on real systems +
RemdTrace."""

import json
import random
import traceback

import numpy as np

from harness import simlab
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of replica exchange checked with TLC; real multi-replica simulations are driven with scripted random numbers placed just below and above an independently computed Metropolis probability, and every observed state is validated against the specification with TLC"
NOTE = "exhaustive on the specification for 3-4 replicas over all histories of skipped, accepted and rejected swaps; sampled temperatures, pressures, stresses, biases, Hamiltonian weights, bead numbers, thermostats and barostats on the real code"

KB = 3.1668152037e-06


def gen(rng):
    n = rng.choice([2, 3, 3, 4])
    nat, nb = rng.choice([1, 2, 3]), rng.choice([1, 1, 2, 4])
    kind = rng.choice(["nve", "nvt", "gle", "npt", "nst", "nvt", "pile"])
    nf = rng.choice([1, 2])
    nbias = rng.choice([0, 0, 1, 2])
    ens = []
    t0 = [rng.uniform(150, 600) for _ in range(n)]
    if rng.random() < 0.4:
        t0 = [t0[0]] * n if rng.random() < 0.5 else [t0[0]] * 2 + t0[2:]
    for k in range(n):
        e = dict(T=t0[k] * KB, P=rng.uniform(-1, 5) * 1e-4, bw=[rng.uniform(0, 2) for _ in range(nbias)], hw=[rng.choice([1.0, rng.uniform(0.2, 1.5)]) for _ in range(nf)])
        e["S"] = np.round(np.array([[rng.uniform(-3, 3) for _ in range(3)] for _ in range(3)]) * 1e-4, 9)
        e["S"] = ((e["S"] + e["S"].T) / 2).tolist()
        e["h0"] = (np.diag([rng.uniform(9, 11) for _ in range(3)]) + np.triu(np.array([[rng.uniform(-0.5, 0.5) for _ in range(3)] for _ in range(3)]), 1)).tolist()
        ens.append(e)
    # ensembles must be distinguishable
    if kind in ("nve", "nvt", "gle", "pile") and nbias == 0:
        for k, e in enumerate(ens):
            e["hw"][0] = 1.0 - 0.05 * k if rng.random() < 0.6 or len(set(t0)) < n else 1.0
    idx = list(range(n))
    if rng.random() < 0.4:
        rng.shuffle(idx)
    return dict(n=n, nat=nat, nb=nb, kind=kind, nf=nf, nbias=nbias, ens=ens, idx=idx, rescale=rng.random() < 0.75, stride=rng.choice([1.0, 1.0, 2.0, 3.5, 0.5]), steps=rng.choice([3, 5, 8]), seed=rng.randrange(10**8))


def motion(cfg, e):
    k = cfg["kind"]
    th = "<thermostat mode='langevin'><tau units='femtosecond'>100</tau></thermostat>"
    if k == "pile":
        th = "<thermostat mode='pile_g'><tau units='femtosecond'>100</tau></thermostat>"
    if k == "gle":
        th = "<thermostat mode='gle'><A shape='(3,3)'>[1e-3,2e-4,-1e-4, -2e-4,2e-3,1e-4, 1e-4,-1e-4,3e-3]</A></thermostat>"
    baro, mode = "", "nvt"
    if k == "nve":
        th, mode = "", "nve"
    if k == "npt":
        mode = "npt"
        baro = "<barostat mode='isotropic'><p>[%.12g]</p><tau units='femtosecond'>300</tau><thermostat mode='langevin'><tau units='femtosecond'>50</tau></thermostat></barostat>" % e["bp"]
    if k == "nst":
        mode = "nst"
        baro = "<barostat mode='anisotropic'><tau units='femtosecond'>300</tau><h0 shape='(3,3)'>%s</h0><thermostat mode='langevin'><tau units='femtosecond'>50</tau></thermostat></barostat>" % simlab.arr(e["h0"])
    return "<motion mode='dynamics'><fixcom>False</fixcom><dynamics mode='%s'><timestep units='femtosecond'>0.3</timestep>%s%s</dynamics></motion>" % (mode, th, baro)


def build(cfg):
    rng = np.random.RandomState(cfg["seed"] % 2**31)
    sy = []
    nat, nb = cfg["nat"], cfg["nb"]
    for s in range(cfg["n"]):
        e = dict(cfg["ens"][cfg["idx"][s]])
        q = rng.normal(0, 0.5, (nb, 3 * nat))
        m = rng.uniform(1500, 4000, nat)
        p = rng.normal(0, 1, (nb, 3 * nat)) * np.sqrt(np.repeat(m, 3) * e["T"] * nb)
        h = np.diag(rng.uniform(8, 12, 3))
        e["bp"] = 0.0
        x = "<temperature>%.17g</temperature>" % e["T"]
        if cfg["kind"] == "npt":
            x += "<pressure>%.17g</pressure>" % e["P"]
        if cfg["kind"] == "nst":
            x += "<stress shape='(3,3)'>%s</stress>" % simlab.arr(e["S"])
        if cfg["nbias"]:
            x += "<bias>%s</bias><bias_weights>%s</bias_weights>" % ("".join("<force forcefield='b%d'/>" % k for k in range(cfg["nbias"])), simlab.arr(e["bw"]))
        x += "<hamiltonian_weights>%s</hamiltonian_weights>" % simlab.arr(e["hw"])
        fo = "".join("<force forcefield='f%d' weight='%s'/>" % (k, [1.0, 0.5][k]) for k in range(cfg["nf"]))
        sy.append(simlab.system(simlab.beads(q, p, m), simlab.cell(h), fo, x, motion(cfg, e), prefix="r%d" % s))
    ffs = [simlab.ff("f%d" % k, k=0.02 + 0.03 * k, g=0.01 * k, e=0.01) for k in range(cfg["nf"])] + [simlab.ff("b%d" % k, k=0.01, g=0.005 * (k + 1)) for k in range(cfg["nbias"])]
    sm = "<smotion mode='remd'><remd><stride>%g</stride><krescale>%s</krescale><repindex>[%s]</repindex></remd></smotion>" % (cfg["stride"], cfg["rescale"], ", ".join(map(str, cfg["idx"])))
    return simlab.load(simlab.simulation(sy, ffs, sm, seed=1 + cfg["seed"] % 1000))


class Lab:
    def __init__(self, cfg):
        self.cfg = cfg
        self.sim = build(cfg)
        self.sl = self.sim.syslist
        self.rng = random.Random(cfg["seed"])
        self.sm = self.sim.smotion
        lab = self

        class Prng:
            u = property(lambda s: lab.uniform())

        self.sm.prng = Prng()
        self.ev = [dict(n=cfg["n"], rescale=cfg["rescale"], idx=[i + 1 for i in cfg["idx"]])]
        self.T = [e["T"] for e in cfg["ens"]]

    # ---- what a user sees of a system
    def view(self, s):
        y = self.sl[s]
        e, m = y.ensemble, y.motion
        d = dict(q=y.beads.q, p=y.beads.p, h=y.cell.h, T=e.temp, P=e.pext, S=e.stressext, bw=e.bweights, hw=e.hweights, eens=e.eens, econs=e.econs, f=y.forces.f, pot=y.forces.pot, bf=e.bias.f, bpot=e.bias.pot, lpens=e.lpens, tT=m.thermostat.temp, om=y.nm.omegan, spring=y.nm.vspring, kin=y.nm.kin, m=y.beads.m)
        for k, o in (("s", m.thermostat),):
            if hasattr(o, "s"):
                d["s"] = o.s
        b = m.barostat
        if self.cfg["kind"] in ("npt", "nst"):
            d.update(bp=b.p, bkin=b.kin, bT=b.temp, bm=b.m, bV=y.cell.V)
        if self.cfg["kind"] == "nst":
            d["h0"] = b.h0.h
        d["comp"] = [c.pot * c.weight for c in y.forces.mforces]
        d["compf"] = [np.array(y.forces.mrpc[k].b2tob1(np.array(c.f))) * c.weight for k, c in enumerate(y.forces.mforces)]
        d["bias"] = [c.pot for c in e.bias.mforces[: self.cfg["nbias"]]]
        d["biasf"] = [np.array(c.f) for c in e.bias.mforces[: self.cfg["nbias"]]]
        return {k: (np.array(v, float).copy() if not isinstance(v, list) else [np.array(x, float).copy() for x in v]) for k, v in d.items()}

    def snap(self):
        return [self.view(s) for s in range(self.cfg["n"])]

    def logw(self, v, old, new):
        """log weight of a system (state v, at present in ensemble old) in ensemble new"""
        c = self.cfg
        e, T, T0 = c["ens"][new], c["ens"][new]["T"], c["ens"][old]["T"]
        r = T / T0
        nb = c["nb"]
        E = sum(e["hw"][k] * v["comp"][k] for k in range(c["nf"])) + sum(e["bw"][k] * v["bias"][k] for k in range(c["nbias"]))
        K = (v["p"] ** 2 / np.repeat(v["m"], 3)[None, :]).sum() / 2
        E = E + (K * r if c["rescale"] else K)
        q = v["q"]
        if nb > 1:
            w = nb * T
            E = E + 0.5 * w**2 * (np.repeat(v["m"], 3)[None, :] * (q - np.roll(q, 1, axis=0)) ** 2).sum()
        if c["kind"] == "npt":
            V = float(np.linalg.det(v["h"]))
            E = E + V * e["P"] * nb - np.log(V) * T * nb
            E = E + v["bkin"] * (r if c["rescale"] else 1 / r)
        if c["kind"] == "nst":
            h0 = np.array(e["h0"])
            x = v["h"] @ np.linalg.inv(h0)
            eps = 0.5 * (x.T @ x - np.eye(3))
            E = E + np.linalg.det(h0) * np.trace(np.array(e["S"]) @ eps) * nb
            E = E - nb * T * sum((3 - i) * np.log(v["h"][i, i]) for i in range(3))
            E = E + v["bkin"] * (r if c["rescale"] else 1 / r)
        return -float(E) / (T * nb)

    # ---- scripted random numbers
    def uniform(self):
        if self.state == "attempt":
            self.done()
            self.before = self.snap()
            p = 1.0 / self.cfg["stride"]
            go = self.rng.random() < 0.75
            if p >= 1:
                go = True
            self.state = "decide" if go else "attempt"
            self.ev.append(dict(e="try" if go else "skip"))
            i, j = self.pair
            if not go:
                self.adv()
                return p + (1 - p) * self.rng.choice([1e-9, 0.5, 0.999])
            return p * self.rng.choice([1e-12, 0.3, 0.999999]) if p < 1 else self.rng.random()
        i, j = self.pair
        a, b = self.before[i], self.before[j]
        ei, ej = self.held[i], self.held[j]
        d = self.logw(a, ei, ej) + self.logw(b, ej, ei) - self.logw(a, ei, ei) - self.logw(b, ej, ej)
        px = float(np.exp(min(d, 50)))
        self.state = "attempt"
        if px >= 1 + 1e-7:
            u = self.rng.choice([0.0, 0.5, 1 - 1e-12])
        elif px >= 1 - 1e-7:
            u = self.rng.choice([0.0, 0.5])
        elif px < 1e-13:
            u = 0.5
        else:
            u = self.rng.choice([px * (1 - 1e-6), px * (1 + 1e-6), px * 0.5, min(1 - 1e-12, px * 1.5), self.rng.random()])
            if abs(u / px - 1) < 2e-7:
                u = px * 0.5
        low = u < px
        self.ev.append(dict(e="decide", low=bool(low)))
        self.pend = (i, j, low)
        self.adv()
        return u

    def adv(self):
        i, j = self.pair
        self.pair = (i, j + 1) if j + 1 < i else (i + 1, 0)

    def done(self):
        """observes the state after a pair"""
        c = self.cfg
        now = self.snap()
        rest = True
        why = []
        i, j, low = self.pend if self.pend else (None, None, False)
        e = dict(e="now", idx=[int(x) + 1 for x in self.sm.repindex], ens=[], mom=[], ref=[], con=[])
        for s in range(c["n"]):
            v, b = now[s], self.before[s]
            # which ensemble does the system have
            ids = [k + 1 for k, x in enumerate(c["ens"]) if simlab.close(v["T"], x["T"], 1e-12) and (c["kind"] != "npt" or simlab.close(v["P"], x["P"], 1e-12)) and (c["kind"] != "nst" or simlab.close(v["S"], x["S"], 1e-9, 1e-11)) and simlab.close(v["hw"], x["hw"], 1e-12) and (not c["nbias"] or simlab.close(v["bw"], x["bw"], 1e-12))]
            e["ens"].append(ids[0] if len(ids) == 1 else 0)
            # the temperature its momenta correspond to
            e["mom"].append([k + 1 for k in range(c["n"]) if simlab.close(v["p"], b["p"] * np.sqrt(self.T[k] / self.T[self.mom[s]]), 1e-11, 1e-11)])
            e["ref"].append([k + 1 for k in range(c["n"]) if c["kind"] != "nst" or simlab.close(v["h0"], c["ens"][k]["h0"], 1e-11)])
            e["con"].append(0 if simlab.close(v["econs"], b["econs"], 1e-9, 1e-11) else 1)

            def chk(name, ok):
                if not ok:
                    why.append("%s of system %d" % (name, s))

            swapped = self.pend and low and s in (i, j)
            for k in ("q", "h", "f", "pot", "m"):
                chk(k, simlab.close(v[k], b[k], 1e-12))
            if not swapped:
                for k in v:
                    if k not in ("comp", "compf", "bias", "biasf"):
                        chk(k, simlab.close(v[k], b[k], 1e-9, 1e-11))
            else:
                o = j if s == i else i
                x = c["ens"][self.held[o]]
                r = x["T"] / c["ens"][self.held[s]]["T"]
                chk("thermostat temperature", simlab.close(v["tT"], x["T"] * (1 if c["kind"] == "nve" else c["nb"]), 1e-9) or simlab.close(v["tT"], x["T"], 1e-9) or c["kind"] == "nve")
                chk("ring polymer frequency", simlab.close(v["om"], x["T"] * c["nb"], 1e-9))
                chk("bias", simlab.close(v["bpot"], sum((x["hw"][k] - 1) * v["comp"][k] for k in range(c["nf"])) + sum(x["bw"][k] * v["bias"][k] for k in range(c["nbias"])), 1e-8, 1e-11))
                chk("bias forces", simlab.close(v["bf"], sum((x["hw"][k] - 1) * v["compf"][k] for k in range(c["nf"])) + sum(x["bw"][k] * v["biasf"][k] for k in range(c["nbias"])) + 0 * v["f"], 1e-8, 1e-11))
                if "bp" in v:
                    chk("barostat momentum", simlab.close(v["bp"], b["bp"] * (r if c["rescale"] else 1), 1e-10, 1e-13))
                    chk("barostat temperature", simlab.close(v["bT"], x["T"], 1e-9) or simlab.close(v["bT"], x["T"] * c["nb"], 1e-9))
                chk("weight", simlab.close(v["lpens"], self.logw(v, self.held[o], self.held[o]), 1e-8, 1e-9))
        if self.pend:
            if low:
                self.held[i], self.held[j] = self.held[j], self.held[i]
                if c["rescale"]:
                    self.mom[i], self.mom[j] = self.mom[j], self.mom[i]
                self.swaps += 1
        e["rest"] = not why
        if why:
            e["why"] = why[:6]
        self.ev.append(e)
        self.before = now
        self.pend = None

    def lines(self):
        self.sm.sf.force_flush() if hasattr(self.sm.sf, "force_flush") else None
        return [x.split() for x in open(self.path).read().splitlines() if x.strip() and not x.startswith("#")]

    def run(self):
        c = self.cfg
        import glob
        import os

        self.held = list(c["idx"])
        self.mom = list(c["idx"])
        fn = [f for f in os.listdir(".") if "remd_idx" in f]
        self.path = fn[0]
        for step in range(c["steps"]):
            if self.rng.random() < 0.6:
                for y in self.sl:
                    y.motion.step(step)
                if not c["rescale"]:
                    pass
            if self.rng.random() < 0.3:
                y = self.rng.choice(self.sl)
                y.beads.q[:] = np.array(y.beads.q) + np.random.RandomState(step).normal(0, 0.2, y.beads.q.shape)
            if c["kind"] in ("npt", "nst") and self.rng.random() < 0.5:
                for k, y in enumerate(self.sl):
                    y.motion.barostat.p = np.array(y.motion.barostat.p) * 0 + np.triu(np.random.RandomState(step + 7 * k).normal(0, 3, np.shape(y.motion.barostat.p))) if c["kind"] == "nst" else np.random.RandomState(step + 7 * k).normal(0, 30, np.shape(y.motion.barostat.p))
            self.before = self.snap()
            self.pair, self.state, self.pend, self.swaps = (1, 0), "attempt", None, 0
            n0 = len(self.lines())
            self.sm.step(step)
            self.done()
            L = self.lines()[n0:]
            self.ev.append(dict(e="file", swaps=self.swaps, lines=len(L), idx=[int(x) + 1 for x in L[0][1:]] if L else []))
            if L and int(L[0][0]) != step:
                self.ev.append(dict(e="wrong step in the swap file"))
            if self.pair != (c["n"], 0):
                self.ev.append(dict(e="not all pairs were considered"))
        return self.ev


def session(cfg):
    with simlab.Silent():
        try:
            return Lab(cfg).run()
        except Exception as e:
            return [dict(n=cfg["n"], rescale=cfg["rescale"], idx=[i + 1 for i in cfg["idx"]]), dict(e="error", why=traceback.format_exc()[-900:])]


def run(ctx):
    for n, r in [(3, "TRUE"), (3, "FALSE"), (4, "TRUE")]:
        ctx.tlc_stats(vf.must_tlc("RemdMC", "CONSTANTS N=%d Rescale=%s\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Act\nCHECK_DEADLOCK FALSE\n" % (n, r), timeout=900))
    rng = random.Random(ctx.seed)
    jobs = [gen(rng) for _ in range(ctx.n(90, 2500))]
    traces = vf.procmap(session, jobs, workers=8, timeout=ctx.n(600, 6000), fresh=10)
    ctx.traces(len(traces))
    for t in traces:
        for e in t:
            if e.get("e") == "decide":
                ctx.count("accepted" if e["low"] else "rejected")
    _, good = vf.validate_traces("RemdTrace", "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", traces, timeout=900)
    for j, t, p in zip(jobs, traces, good):
        if p < len(t):
            ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(t[p])[:300]), dict(job=j, trace=t[max(0, p - 8) : p + 1]))
    ctx.sample(dict(job=jobs[0], trace=traces[0][:30]))
    ctx.assumptions += [
        "momenta of rejected swaps are restored up to rounding",
        "ensembles of a simulation are pairwise different, systems have the same kind of motion",
        "the extra momenta of GLE thermostats are rescaled by the code as it sees fit in accepted swaps; they are restored in rejected ones",
    ]
