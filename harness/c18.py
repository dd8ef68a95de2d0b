"""C18: the random-number generator."""

import json
import random

from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ specification of the generator as a pure function of seed and draws, checked with TLC; random histories of creation, draws, saving and restoring (in memory, as JSON, as checkpoint XML) taken from the specification are executed on the real generator and every recorded history is validated against the specification with TLC"
NOTE = "exhaustive on the specification for 2 generators, 2 slots, 3 draws; the real generator is driven through every kind of draw it offers, sizes around the multi-threading threshold, 1 to 8 threads"
TCFG = "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
BLOCK = 37


class World:
    def __init__(self, rng, gens, slots):
        self.rng = rng
        self.gens = {}
        self.saved = {}
        self.tok = {}
        self.nt = {}
        self.seed = {}
        self.ev = [dict(gens=gens, slots=slots)]
        self.why = []

    def token(self, key):
        return self.tok.setdefault(key, len(self.tok) + 1)

    def tokens(self, a):
        import numpy as np

        a = np.asarray(a)
        f = a.reshape(-1)
        out = []
        for i in range(0, len(f), BLOCK):
            out.append(self.token(f[i : i + BLOCK].tobytes()))
        return out

    def create(self, g, seed, nt):
        from ipi.utils.prng import Random

        self.gens[g] = Random(seed=seed, n_threads=nt)
        self.nt[g] = nt
        self.seed[g] = seed
        self.ev.append(dict(e="create", g=g, s=seed, n=nt))

    def draw(self, g, d):
        import numpy as np

        r = self.gens[g]
        kind = d[0]
        ok, wide = True, False

        def dist(a, mean, sd):
            n = np.size(a)
            return n < 400 or (abs(np.mean(a) - mean) < 7 * sd / n**0.5 and abs(np.std(a) / sd - 1) < 7 * 1.5 / n**0.5)

        if kind == "u":
            v = r.u
            ok, wide = 0 <= v < 1, True
        elif kind == "g":
            v = r.g
            wide = True
        elif kind == "gvec":
            sh = tuple(d[1]) if len(d[1]) != 1 else (d[1][0] if d[2] else tuple(d[1]))
            v = r.gvec(sh)
            ok = np.shape(v) == tuple(d[1]) and bool(np.all(np.isfinite(v)))
            ok = ok and len(np.unique(v)) == np.size(v) and dist(v, 0, 1)
            wide = np.size(v) > 0
        elif kind == "gfill":
            v = np.full(tuple(d[1]), np.nan)
            big = np.full((np.size(v) + 4,), 7.25)
            if d[2]:
                # a slice in the middle of a larger array
                v = big[2:-2].reshape(tuple(d[1]))
                v[...] = np.nan
            r.gfill(v)
            ok = bool(np.all(np.isfinite(v))) and len(np.unique(v)) == np.size(v) and dist(v, 0, 1)
            ok = ok and np.all(big[:2] == 7.25) and np.all(big[-2:] == 7.25)
            v = v.copy()
            wide = np.size(v) > 0
        elif kind == "gamma":
            v = r.gamma(d[1], d[2], d[3])
            ok = bool(np.all(np.asarray(v) > 0)) and (d[3] is None or np.shape(v) == (d[3],)) and dist(v, d[1] * d[2], d[1] ** 0.5 * d[2])
            wide = True
        elif kind == "poisson":
            v = r.poisson(d[1], d[2])
            ok = dist(v, d[1], d[1] ** 0.5)
        elif kind == "uniform":
            v = r.uniform(d[1], d[2], d[3])
            ok = bool(np.all((np.asarray(v) >= d[1]) & (np.asarray(v) <= d[2]))) and (d[3] is None or np.shape(v) == (d[3],)) and dist(v, (d[1] + d[2]) / 2, (d[2] - d[1]) / 12**0.5)
            wide = True
        elif kind == "integers":
            v = r.integers(d[1], d[2], d[3])
            ok = bool(np.all((np.asarray(v) >= d[1]) & (np.asarray(v) < d[2])))
        elif kind == "shuffle":
            v = np.arange(d[1])
            r.shuffle(v)
            ok = sorted(v.tolist()) == list(range(d[1]))
        if not ok:
            self.why.append("draw %s: wrong shape, range or distribution" % (d,))
        self.ev.append(dict(e="draw", g=g, d=json.dumps(d), tok=self.tokens(v), wide=bool(wide), ok=bool(ok), null=np.size(v) == 0 or (kind == "shuffle" and d[1] < 2)))

    def save(self, g, k, how):
        r = self.gens[g]
        from ipi.inputs.prng import InputRandom

        if how == "xml":
            i = InputRandom()
            i.store(r)
            self.saved[k] = ("xml", i.write(name="prng"), self.nt[g], self.seed[g])
        else:
            self.saved[k] = ("mem", r.state if how == "prop" else r.get_state(), self.nt[g], self.seed[g])
        self.ev.append(dict(e="save", g=g, k=k))

    def restore(self, g, k, how):
        from ipi.inputs.prng import InputRandom
        from ipi.utils.prng import Random
        from ipi.utils.io import NumpyEncoder
        from ipi.utils.io.inputs.io_xml import xml_parse_string

        kind, st, nt, seed = self.saved[k]
        if kind == "xml":
            i = InputRandom()
            i.parse(xml_parse_string(st).fields[0][1])
            new = i.fetch()
            # what is rebuilt describes the same generator
            ok = new.n_threads == nt and new.seed == seed
            if not ok:
                self.why.append("seed or number of threads not restored: %r %r instead of %r %r" % (new.seed, new.n_threads, seed, nt))
            if how == "into" and self.gens.get(g) is not None and self.nt[g] == nt:
                self.gens[g].state = new.state
                self.seed[g] = seed
                self.gens[g].seed = seed
                self.ev.append(dict(e="restore", g=g, k=k))
            else:
                self.gens[g], self.nt[g], self.seed[g] = new, nt, seed
                self.ev.append(dict(e="reload", g=g, k=k, ok=ok))
        else:
            if how == "json":
                st = json.loads(json.dumps(st, cls=NumpyEncoder))
            if how == "into" and self.gens.get(g) is not None and self.nt[g] == nt:
                self.gens[g].set_state(st)
                self.gens[g].seed = seed
                self.seed[g] = seed
                self.ev.append(dict(e="restore", g=g, k=k))
            else:
                self.gens[g] = Random(seed=seed if how == "json" else 999, state=st, n_threads=nt)
                self.gens[g].seed = seed
                self.nt[g], self.seed[g] = nt, seed
                self.ev.append(dict(e="reload", g=g, k=k, ok=True))


def draws(rng, nt):
    n = rng.choice([0, 1, 3, 36, 99, 100, 101, 100 * nt - 1, 100 * nt, 100 * nt + 1, 137 * nt - 3, 401, 1009])
    sh = rng.choice([[n], [n], [max(1, n // 7), 7], [3, max(1, n // 6), 2]])
    return rng.choice(
        [
            ["u"],
            ["g"],
            ["gvec", sh, rng.random() < 0.5],
            ["gvec", sh, rng.random() < 0.5],
            ["gfill", sh, rng.random() < 0.5],
            ["gfill", sh, rng.random() < 0.5],
            ["gamma", rng.choice([0.5, 2.0, 7.5]), rng.choice([1.0, 2.0]), rng.choice([None, None, 5, 500])],
            ["poisson", 3.0, rng.choice([None, 5])],
            ["uniform", rng.choice([0.0, -2.0]), 1.5, rng.choice([None, 3, 500])],
            ["integers", 0, rng.choice([2, 10, 10**9]), rng.choice([None, 1, 7])],
            ["shuffle", rng.choice([1, 5, 40])],
        ]
    )


def execute(rng, walk=None):
    G, K = 3, 3
    w = World(rng, G, K)
    seeds = [rng.randint(1, 10**6) for _ in range(2)]
    nts = [rng.choice([1, 2, 3, 4, 8]) for _ in range(2)]
    # a small vocabulary, so that the same draw recurs at the same position
    voc = [draws(rng, rng.choice(nts)) for _ in range(4)]
    hist = {}
    ops = walk or [None] * rng.randint(10, 40)
    for o in ops:
        if o is None:
            x = rng.random()
            g, k = rng.randint(1, G), rng.randint(1, K)
            if x < 0.08 or not w.gens:
                o = dict(op="create", g=g, s=rng.choice([1, 2]), n=rng.choice([1, 2]))
            elif x < 0.65:
                o = dict(op="draw", g=g, d=rng.randint(0, 3))
            elif x < 0.8:
                o = dict(op="save", g=g, k=k)
            else:
                o = dict(op="restore", g=g, k=k)
        g = o["g"]
        if o["op"] == "create":
            w.create(g, seeds[o["s"] - 1], nts[o["n"] - 1])
        elif o["op"] == "draw" and g in w.gens:
            w.draw(g, voc[o["d"] % 4])
        elif o["op"] == "save" and g in w.gens:
            w.save(g, o["k"], rng.choice(["xml", "xml", "prop", "get"]))
        elif o["op"] in ("restore", "reload") and o["k"] in w.saved:
            w.restore(g, o["k"], "into" if o["op"] == "restore" and rng.random() < 0.7 else rng.choice(["json", "mem"]))
    return w


def run(ctx):
    c = "CONSTANTS Gens={1,2} Slots={1} Seeds={1,2} Threads={1} Draws={0,1} MaxDraw=%d\nSPECIFICATION Spec\nVIEW view\nCHECK_DEADLOCK FALSE\nINVARIANT Determined\nPROPERTIES SavedStays OnlyOwn SaveHarmless Forward\n"
    ctx.tlc_stats(vf.must_tlc("PrngMC", c % ctx.n(1, 2), workers=4, timeout=1500))
    if not ctx.quick:
        ctx.tlc_stats(vf.must_tlc("PrngMC", c.replace("Threads={1}", "Threads={1,2}") % 1, workers=4, timeout=2400))
    wk = vf.sim_walks("PrngMC", "CONSTANTS Gens={1,2,3} Slots={1,2,3} Seeds={1,2} Threads={1,2} Draws={0,1,2,3} MaxDraw=6\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", ctx.n(60, 600), 35, seed=ctx.seed)
    rng = random.Random(ctx.seed)
    runs = [execute(rng, w) for w in wk] + [execute(rng) for _ in range(ctx.n(150, 3000))]
    for k in range(0, len(runs), 100):
        ws = runs[k : k + 100]
        r, prog = vf.validate_traces("PrngTrace", TCFG, [w.ev for w in ws])
        ctx.tlc_stats(r)
        for w, p in zip(ws, prog):
            if p < len(w.ev):
                ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(w.ev[p])[:300]), {"flagged": w.why[:3], "history": w.ev[max(0, p - 12) : p + 1]})
            else:
                ctx.traces()
    ctx.count("draws", sum(1 for w in runs for e in w.ev if e.get("e") == "draw"))
    ctx.sample(runs[0].ev[:8])
    ctx.assumptions += ["numpy's MT19937 bit generator is deterministic and of full period", "one simulation thread draws at a time, as the engine does unless systems are run in threads"]
