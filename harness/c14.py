"""C14: fixed atoms and fixed centre of mass.  Fix.tla + random real
simulations of all kinds of motion, observed step by step + FixTrace."""

import json
import random
import traceback

import numpy as np

from harness import simlab, simpes_eval
from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of constrained motion (kicks, heating, constraining, drifts, displacements, momenta set by the user, energy account) checked with TLC; random real simulations of dynamics in all ensembles with all thermostats and of all optimisers are observed step by step and validated against the specification with TLC"
NOTE = "exhaustive on the specification for up to 3 atoms with bounded energies; sampled motions, ensembles, thermostats, fixed sets, beads and momenta on the real code"

KB = 3.1668152037e-06
OPT = ["sd", "cg", "bfgs", "bfgstrm", "damped_bfgs", "lbfgs"]
# entries of the cell held fixed
HFIX = [None, ["offdiagonal"], ["zz"], ["xx", "offdiagonal"], ["offdiagonal", "xx", "yy"], ["xy", "xz"]]
ENTRY = dict(xx=[(0, 0)], yy=[(1, 1)], zz=[(2, 2)], xy=[(0, 1)], xz=[(0, 2)], yz=[(1, 2)], offdiagonal=[(0, 1), (0, 2), (1, 2)])
A = "<A shape='(2,2)'>[0.002,0.01,-0.01,0.05]</A>"


def thermostat(kind, nb, tau):
    if kind == "gle":
        return "<thermostat mode='gle'>%s</thermostat>" % A
    if kind == "nm_gle":
        return "<thermostat mode='nm_gle'><A shape='(%d,2,2)'>[%s]</A></thermostat>" % (nb, ",".join(["0.002,0.01,-0.01,0.05"] * nb))
    if kind == "pile_l" or kind == "pile_g":
        return "<thermostat mode='%s'><tau>%r</tau><pile_lambda>0.5</pile_lambda></thermostat>" % (kind, tau)
    return "<thermostat mode='%s'><tau>%r</tau></thermostat>" % (kind, tau)


def gen(rng):
    kind = rng.choice(["nve", "nvt", "nvt", "nvt", "nvt-cc", "npt", "npt", "nst", "sc", "scnpt", "opt", "opt", "opt"])
    nat = rng.choice([2, 3, 4])
    nb = rng.choice([2, 4]) if kind in ("sc", "scnpt") else 1 if kind == "opt" else rng.choice([1, 2, 3])
    com = kind != "opt" and rng.random() < 0.4
    fixed = [] if com else sorted(rng.sample(range(nat), rng.randrange(1, nat)))
    c = dict(kind=kind, nat=nat, nb=nb, com=com, fixed=fixed, seed=rng.randrange(10**8), T=rng.uniform(200, 2000) * KB)
    c["mode"] = rng.choice(OPT) if kind == "opt" else rng.choice(["obabo", "baoab"])
    c["th"] = rng.choice(["langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle"])
    c["baro"] = {"npt": rng.choice(["isotropic", "flexible"]), "nst": "anisotropic", "scnpt": "sc-isotropic"}.get(kind)
    c["dt"] = rng.choice([0.002, 0.002, 5.0]) if kind != "opt" else 1.0
    c["tau"] = rng.choice([0.002, 0.01]) if c["dt"] < 1 else rng.choice([10.0, 50.0])
    c["nmts"] = rng.choice([[1], [1], [2], [2, 1], [3, 2]]) if kind != "opt" else [1]
    c["bias"] = rng.random() < 0.2 and kind != "opt"
    c["hfix"] = rng.choice(HFIX) if c["baro"] in ("flexible", "anisotropic") else None
    c["dof"] = rng.random() < 0.3 and bool(fixed)
    c["steps"] = rng.choice([3, 5, 8])
    c["user"] = rng.random() < 0.4 and kind != "opt"
    return c


def pes(c):
    # translational invariance, where the centre of mass is fixed
    return dict(k=0.0, g=0.0, e=0.05) if c["com"] else dict(k=0.05, g=0.02, e=0.02)


def build(c):
    rng = np.random.RandomState(c["seed"] % 2**31)
    nat, nb = c["nat"], c["nb"]
    m = rng.uniform(1500, 4000, nat)
    q = rng.normal(0, 0.5, (1, 3 * nat)) + rng.normal(0, 0.05, (nb, 3 * nat))
    p = rng.normal(0, 1, (nb, 3 * nat)) * np.sqrt(np.repeat(m, 3) * c["T"] * nb)
    if c["kind"] == "opt":
        p *= 0
    P = "<stress>[1e-4,2e-5,1e-5,2e-5,2e-4,3e-5,1e-5,3e-5,1.5e-4]</stress>" if c["kind"] == "nst" else "<pressure>1e-4</pressure>" if c["baro"] else ""
    x = "<temperature>%.17g</temperature>%s" % (c["T"], P)
    if c["bias"]:
        x += "<bias><force forcefield='b0'/></bias><bias_weights>[0.7]</bias_weights>"
    L = len(c["nmts"])
    fo = "<force forcefield='f0'><mts_weights>%s</mts_weights></force>" % simlab.arr([0.5, 0.5] if L == 2 else [1.0])
    fix = "<fixcom>%s</fixcom>" % c["com"]
    if c["fixed"]:
        fix += "<fixatoms_dof>[%s]</fixatoms_dof>" % ", ".join(str(3 * a + k) for a in c["fixed"] for k in range(3)) if c["dof"] else "<fixatoms>[%s]</fixatoms>" % ", ".join(map(str, c["fixed"]))
    if c["kind"] == "opt":
        mo = "<motion mode='minimize'>%s<optimizer mode='%s'><tolerances><energy>1e-9</energy><force>1e-6</force><position>1e-6</position></tolerances></optimizer></motion>" % (fix, c["mode"])
    else:
        th = "" if c["kind"] == "nve" else thermostat(c["th"], nb, c["tau"])
        ba = "<barostat mode='%s'><tau>300</tau><thermostat mode='langevin'><tau>%r</tau></thermostat>%s%s</barostat>" % (c["baro"], c["tau"], "<hfix>[%s]</hfix>" % ", ".join(c["hfix"]) if c["hfix"] else "", ("<h0>[6,0.3,0.1,0,7,0.2,0,0,6.5]</h0>" if c["kind"] == "nst" else "")) if c["baro"] else ""
        mo = "<motion mode='dynamics'>%s<dynamics mode='%s' splitting='%s'><timestep>%r</timestep><nmts>[%s]</nmts>%s%s</dynamics></motion>" % (fix, c["kind"], c["mode"], c["dt"], ", ".join(map(str, c["nmts"])), th, ba)
    h = np.array([[6.0, 0.3, 0.1], [0, 7, 0.2], [0, 0, 6.5]])
    s = simlab.system(simlab.beads(q, p, m), simlab.cell(h), fo, x, mo)
    bp = pes(c) if c["com"] else dict(k=0.02, g=0.01, e=0.0)
    ffs = [simlab.ff("f0", **pes(c))] + ([simlab.ff("b0", **bp)] if c["bias"] else [])
    return simlab.load(simlab.simulation([s], ffs, seed=1 + c["seed"] % 999)), q, p, m


class Obs:
    def __init__(self, c, y):
        self.c, self.y = c, y

    def get(self):
        y, c = self.y, self.c
        q, p, h = np.array(y.beads.q), np.array(y.beads.p), np.array(y.cell.h)
        m3 = np.repeat(np.array(y.beads.m), 3)
        qc = q.mean(axis=0)
        com = (m3 * qc).reshape(-1, 3).sum(axis=0) / m3.sum() * 3
        return dict(q=q, p=p, h=h, qc=qc, com=com, pcom=p.reshape(-1, 3).sum(axis=0), e=float(y.ensemble.econs), m3=m3)

    def event(self, e, a, b, free=False):
        """what happened between two observations"""
        c = self.c
        var = c["baro"] is not None
        tol = 1e-11
        moved, hot = [], []
        S = b["h"] @ np.linalg.inv(a["h"])
        for i in range(c["nat"]):
            s = slice(3 * i, 3 * i + 3)
            if var:
                # the centroid goes with the cell, the shape of the path stays
                ok = np.allclose(b["qc"][s], S @ a["qc"][s], rtol=0, atol=1e-9) and np.allclose(b["q"][:, s] - b["qc"][s], a["q"][:, s] - a["qc"][s], rtol=0, atol=1e-9)
            else:
                ok = np.array_equal(b["q"][:, s], a["q"][:, s]) if c["nb"] == 1 else np.allclose(b["q"][:, s], a["q"][:, s], rtol=0, atol=tol)
            if not ok:
                moved.append(i + 1)
            if np.abs(b["p"][:, s]).max() > 1e-11 * np.sqrt(b["m3"].max() * c["T"] * c["nb"]):
                hot.append(i + 1)
        if c["hfix"] and any(abs(S[x] - (x[0] == x[1])) > 1e-10 for f in c["hfix"] for x in ENTRY[f]):
            moved.append(c["nat"] + 1)
        d = dict(e=e, moved=moved, hot=hot)
        d["pcom"] = bool(np.abs(b["pcom"]).max() > 1e-9 * np.sqrt(b["m3"].sum() * c["T"] * c["nb"]))
        d["qcom"] = bool(np.abs(b["com"] - S @ a["com"]).max() > 1e-9)
        # the error of the integrator vanishes for tiny time steps
        scale = c["T"] * c["nb"] * c["nat"]
        d["balanced"] = bool(free or c["dt"] > 1 or c["baro"] in ("flexible", "anisotropic") or abs(b["e"] - a["e"]) < 2e-6 * scale)
        if not d["balanced"]:
            d["de"] = (b["e"] - a["e"]) / scale
        return d


def energy(c, q, p, m, h):
    """conserved quantity of a system that has just been set up"""
    nb = c["nb"]
    m3 = np.repeat(m, 3)
    ev = lambda par: [simpes_eval.evaluate(par["k"], par["g"], par["e"], x, h) for x in q]
    f = ev(pes(c))
    E = float((p**2 / m3).sum() / 2) + sum(x[0] for x in f)
    if c["bias"]:
        E += 0.7 * sum(x[0] for x in ev(pes(c) if c["com"] else dict(k=0.02, g=0.01, e=0.0)))
    if nb > 1:
        E += 0.5 * (nb * c["T"]) ** 2 * float((m3 * (q - np.roll(q, -1, axis=0)) ** 2).sum())
    return E


def session(c):
    # the fixed part of the cell is one more fixed atom
    ev = [dict(n=c["nat"] + 1, fixed=[a + 1 for a in c["fixed"]] + [c["nat"] + 1], com=c["com"])]
    with simlab.Silent():
        try:
            sim, q, p, m = build(c)
            y = sim.syslist[0]
            o = Obs(c, y)
            if c["kind"] != "opt":
                ev.append(dict(e="user", hot=list(range(1, c["nat"] + 1)), pcom=True))
                a = o.get()
                b = dict(a, q=q, p=p, e=energy(c, q, p, m, a["h"]))
                b["qc"] = q.mean(axis=0)
                b["com"] = (a["m3"] * b["qc"]).reshape(-1, 3).sum(axis=0) / a["m3"].sum() * 3
                e = o.event("made", b, a, free=True)
                if c["baro"] is None and c["kind"] != "sc":
                    e["balanced"] = bool(abs(a["e"] - b["e"]) < 1e-8 * (abs(b["e"]) + c["T"]))
                ev.append(e)
            a = o.get()
            for n in range(c["steps"]):
                user = c["user"] and n == 2
                if user:
                    # new momenta for everything
                    rng = np.random.RandomState(c["seed"] % 2**31 + 5)
                    y.beads.p[:] = rng.normal(0, 1, p.shape) * np.sqrt(np.repeat(m, 3) * c["T"] * c["nb"])
                    ev.append(dict(e="user", hot=list(range(1, c["nat"] + 1)), pcom=True))
                    a = o.get()
                try:
                    y.motion.step(n)
                except SystemExit:
                    break
                b = o.get()
                ev.append(o.event("step", a, b, free=c["kind"] == "opt" or user))
                a = b
        except BaseException:
            ev.append(dict(e="raised", why=traceback.format_exc()[-800:]))
    return ev


def run(ctx):
    for n, d in [(2, 4), (3, 2)] if ctx.tier == "quick" else [(2, 6), (3, 4)]:
        ctx.tlc_stats(vf.must_tlc("FixMC", "SPECIFICATION Spec\nINVARIANT Inv\nCONSTRAINT Small\nCHECK_DEADLOCK FALSE\nCONSTANTS Count = %d Deep = %d\n" % (n, d), timeout=3000))
    rng = random.Random(ctx.seed)
    jobs = [gen(rng) for _ in range(ctx.n(240, 5000))]
    traces = vf.procmap(session, jobs, workers=8, timeout=ctx.n(700, 8000), fresh=10)
    ctx.traces(len(traces))
    for j in jobs:
        ctx.count(j["kind"])
    _, good = vf.validate_traces("FixTrace", "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n", traces, timeout=900)
    for j, t, p in zip(jobs, traces, good):
        if p < len(t):
            ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(t[p])[:600]), dict(job=j, trace=t[max(0, p - 8) : p + 1]))
    ctx.sample(dict(job=jobs[0], trace=traces[0]))
    ctx.assumptions += [
        "with a variable cell the centroid of a fixed atom keeps its position relative to the cell",
        "a fixed centre of mass is used with forces that add up to zero and not together with fixed atoms",
        "the energy account of cells of variable shape is left out here",
        "Monte Carlo swaps of atoms are not combined with fixed atoms",
    ]
