"""C06: the dependency-tracking library (ipi.utils.depend).

1. Depend.tla: TLC checks the caching design exhaustively on a network with
   every kind of link and emits its transition graph; every transition is
   replayed into real depend objects.
2. DependTrace.tla: random networks and random programs run on the real
   library; TLC validates each recorded execution.
3. DependThreads.tla: every interleaving of two concurrent readers is
   generated and forced on real threads.
"""

import threading
import itertools

from lib import vf

LEVEL = "model_checking"
TECHNIQUE = "TLA+ spec of lazy caching (Depend.tla) checked with TLC; full transition graph replayed; random-network traces and reader interleavings validated"
NOTE = "exhaustive on the model network (every link kind, 2 values per write); replay covers every model transition; random networks by trace validation; writers are not concurrent with readers"

CFG = """CONSTANTS Vals = {0,1}
M = 3
SPECIFICATION Spec
VIEW view
INVARIANTS Coherent Closed ManualClean EmitInit
PROPERTIES LazyReads ReadsTrue RefuseInert
ACTION_CONSTRAINT EmitTr
CHECK_DEADLOCK FALSE
"""


class Net1:
    """The network of Depend.tla, built with the public constructors."""

    def __init__(self):
        import numpy as np
        from ipi.utils.depend import (
            depend_value,
            depend_array,
            synchronizer,
            dpipe,
            dproperties,
        )

        self.ev = []
        ev = self.ev
        M = 3

        class O:
            pass

        o = O()
        o._a = depend_value(name="a", value=0)
        o._A = depend_array(name="A", value=np.zeros(2, int))
        sync = synchronizer()

        def x_of_y():
            y = o.Y
            return np.array([(y[0] + M - y[1]) % M, y[1]])

        def y_of_x():
            x = o.X
            return np.array([(x[0] + x[1]) % M, x[1]])

        o._X = depend_array(
            name="X", value=np.zeros(2, int), synchro=sync, func={"Y": x_of_y}
        )
        o._Y = depend_array(
            name="Y", value=np.zeros(2, int), synchro=sync, func={"X": y_of_x}
        )

        def f_c1():
            ev.append("c1")
            return o.a + 2 * o.A[0] + 3 * o.A[1] + 1

        o._c1 = depend_value(name="c1", func=f_c1, dependencies=[o._a, o._A])

        def f_C():
            ev.append("C")
            c1 = o.c1
            return np.array([o.X[0] + c1, o.X[1] + 10 * c1])

        o._C = depend_array(
            name="C", value=np.zeros(2, int), func=f_C, dependencies=[o._X, o._c1]
        )

        def f_c2():
            ev.append("c2")
            return o.c1 + 5 * o.Y[0] + 7 * o.Y[1] + o.C[0]

        o._c2 = depend_value(name="c2", func=f_c2, dependencies=[o._c1, o._Y, o._C])
        o._p = depend_value(name="p", value=0)
        dpipe(o._a, o._p)

        def f_c3():
            ev.append("c3")
            return o.p + 100 * o.c2

        o._c3 = depend_value(name="c3", func=f_c3, dependencies=[o._p, o._c2])
        dproperties(O, ["a", "A", "X", "Y", "c1", "C", "c2", "p", "c3"])
        self.o = o
        # references that a caller may have kept since the beginning
        self.held = {n: getattr(o, "_" + n) for n in "AXYC"}
        self.held["A"] = o.A
        self.views = {n: [getattr(o, "_" + n)[i : i + 1] for i in range(2)] for n in "AXYC"}
        # taking views looks the arrays up, which brings them up to date: make
        # everything stale again so that the model's initial state holds
        o.A = [0, 0]
        o.a = 0
        o.X = [0, 0]
        o.Y = [0, 0]
        ev.clear()

    def read(self, n, how):
        import numpy as np

        if how == "prop":
            v = getattr(self.o, n)
        elif how == "held":
            v = self.held[n][:]
        elif how == "method":
            v = self.held[n].copy()
        else:
            v = [int(w[0]) for w in self.views[n]]
        if n in "AXYC" and not isinstance(v, list):
            return [int(x) for x in np.asarray(v)]
        return v if isinstance(v, list) else int(v)

    def write(self, n, cell, how, v):
        o = self.o
        if n == "a":
            o.a = v
        elif how == "prop":
            if cell == 0:
                setattr(o, n, [v, v])
            else:
                getattr(o, n)[cell - 1] = v
        elif how == "held":
            if cell == 0:
                self.held[n][:] = v
            else:
                self.held[n][cell - 1] = v
        else:
            for c in (1, 2) if cell == 0 else (cell,):
                self.views[n][c - 1][:] = v

    def refuse(self, n):
        try:
            setattr(self.o, n, 77)
        except BaseException:
            return True
        return False


def replay(ctx, path, G):
    net = Net1()
    done = []
    for f, a, t in path:
        net.ev.clear()
        if a["op"] == "read":
            got = net.read(a["n"], a["how"])
            done.append(a)
            if got != a["exp"]:
                ctx.violation(
                    "a read must yield the value implied by the primaries",
                    {"history": done, "read": a["n"], "got": got, "expected": a["exp"]},
                )
                return False
            ev = [e for e in a["ev"] if e in ("c1", "C", "c2", "c3")]
            if sorted(net.ev) != sorted(ev):
                ctx.violation(
                    "a read evaluates exactly the stale quantities it needs, once",
                    {"history": done, "read": a["n"], "evaluated": list(net.ev), "expected": ev},
                )
                return False
        elif a["op"] == "write":
            net.write(a["n"], a["cell"], a["how"], a["val"])
            done.append(a)
            if net.ev:
                ctx.violation(
                    "a write evaluates nothing",
                    {"history": done, "evaluated": list(net.ev)},
                )
                return False
        else:
            done.append(a)
            if not net.refuse(a["n"]):
                ctx.violation(
                    "assigning to a derived quantity is refused",
                    {"history": done, "write": a["n"]},
                )
                return False
    return True


# ------------------------------------------------------------ random networks
P = 9973


def random_net(rng):
    """Nodes in topological order, 1-based references."""
    net = []
    npri = rng.randint(2, 4)
    for _ in range(npri):
        net.append({"k": "prim", "d": [], "n0": 0, "w": rng.choice([1, 2]), "item": 0, "peer": 0, "second": False})
    for _ in range(rng.randint(0, 2)):
        i = len(net) + 1
        net.append({"k": "sync", "d": [], "n0": 0, "w": 2, "item": 0, "peer": i + 1, "second": False})
        net.append({"k": "sync", "d": [], "n0": 0, "w": 2, "item": 0, "peer": i, "second": True})
    for _ in range(rng.randint(3, 7)):
        i = len(net)
        if rng.random() < 0.25:
            s = rng.randint(1, i)
            w = net[s - 1]["w"]
            item = rng.randint(1, 2) if (w == 2 and rng.random() < 0.5) else 0
            net.append({"k": "pipe", "d": [{"n": s, "c": 1}], "n0": 0, "w": 1 if item else w, "item": item, "peer": 0, "second": False})
        else:
            ds = rng.sample(range(1, i + 1), min(i, rng.randint(1, 3)))
            net.append({"k": "der", "d": [{"n": s, "c": rng.randint(1, 50)} for s in ds], "n0": rng.randint(0, 99),
                        "w": rng.choice([1, 2]), "item": 0, "peer": 0, "second": False})
    return net


class NetR:
    def __init__(self, net):
        import numpy as np
        from ipi.utils.depend import depend_value, depend_array, synchronizer, dpipe, dproperties

        self.net = net
        self.ev = ev = []

        class O:
            pass

        self.o = o = O()
        self.dep = {}
        names = []
        syn = {}
        for i, nd in enumerate(net, 1):
            nm = "n%d" % i
            names.append(nm)
            deps = [self.dep[d["n"]] for d in nd["d"]]
            zero = np.zeros(2, int) if nd["w"] == 2 else 0

            if nd["k"] == "sync":
                if not nd["second"]:
                    syn[i] = s = synchronizer()
                    pn = "n%d" % (i + 1)

                    def f(pn=pn):
                        y = getattr(o, pn)
                        return np.array([(y[0] + P - y[1]) % P, y[1]])
                else:
                    s = syn[i - 1]
                    pn = "n%d" % (i - 1)

                    def f(pn=pn):
                        x = getattr(o, pn)
                        return np.array([(x[0] + x[1]) % P, x[1]])

                d = depend_array(name=nm, value=zero, synchro=s, func={pn: f})
            elif nd["k"] == "prim":
                d = depend_array(name=nm, value=zero) if nd["w"] == 2 else depend_value(name=nm, value=0)
            elif nd["k"] == "pipe":
                d = depend_array(name=nm, value=zero) if nd["w"] == 2 else depend_value(name=nm, value=0)
                if nd["item"]:
                    dpipe(deps[0], d, nd["item"] - 1)
                else:
                    dpipe(deps[0], d)
            else:

                def f(i=i, nd=nd):
                    ev.append(i)
                    r = []
                    for c in range(nd["w"]):
                        s = nd["n0"] + c + 1
                        for dd in nd["d"]:
                            x = getattr(o, "n%d" % dd["n"])
                            x = int(x[c]) if net[dd["n"] - 1]["w"] == 2 else int(x)
                            s = (s + dd["c"] * x) % P
                        r.append(s)
                    return np.array(r) if nd["w"] == 2 else r[0]

                if nd["w"] == 2:
                    d = depend_array(name=nm, value=zero, func=f, dependencies=deps)
                else:
                    d = depend_value(name=nm, func=f, dependencies=deps)
            setattr(o, "_" + nm, d)
            self.dep[i] = d
        dproperties(O, names)
        self.held = {}
        self.views = {}

    def arr(self, i):
        return self.net[i - 1]["w"] == 2

    def read(self, i, how):
        import numpy as np

        nm = "n%d" % i
        if not self.arr(i):
            return [int(getattr(self.o, nm))]
        if how == "held" and i in self.held:
            return [int(x) for x in self.held[i]]
        if how == "method" and i in self.held:
            return self.scribble(self.held[i].copy())
        if how == "flat" and i in self.held:
            return self.scribble(self.held[i].flatten())
        if how == "ufunc" and i in self.held:
            return self.scribble(np.add(self.held[i], 0))
        if how == "arith" and i in self.held:
            return self.scribble(0 + self.held[i] * 1)
        if how in COPIES and i in self.held:
            return self.scribble(FORMS[how](self.held[i]) if how in FORMS else None)
        if how == "view" and i in self.views:
            return [int(self.views[i][c][0]) for c in range(2)]
        if how in FORMS and i in self.held:
            return [int(x) for x in FORMS[how](self.held[i])]
        v = getattr(self.o, nm)
        self.held[i] = v
        self.views[i] = [v[0:1], v[1:2]]
        return [int(x) for x in np.asarray(v)]

    @staticmethod
    def scribble(r):
        """the reader overwrites its own copy of what it has read"""
        import numpy as np

        v = [int(x) for x in r]
        if type(r) is np.ndarray and r.flags.writeable:
            r[:] = 77
        return v

    def write(self, i, cell, vals, how):
        nm = "n%d" % i
        if not self.arr(i):
            setattr(self.o, nm, vals[0])
        elif cell == 0:
            if how == "held" and i in self.held:
                self.held[i][:] = vals
            elif how == "flat" and i in self.held:
                self.held[i].reshape((2, 1))[:, 0] = vals
            else:
                setattr(self.o, nm, vals)
        elif how == "view" and i in self.views:
            self.views[i][cell - 1][0] = vals[0]
        elif how == "held" and i in self.held:
            self.held[i][cell - 1] = vals[0]
        elif how == "flat" and i in self.held:
            self.held[i].reshape((2, 1))[cell - 1] = vals[0]
        else:
            getattr(self.o, nm)[cell - 1] = vals[0]


def _zero():
    import numpy as np
    from ipi.utils.depend import depend_array

    return depend_array(name="zero", value=np.zeros(2))


def _forms():
    import numpy as np

    # every way numpy or arithmetic can get at the contents of a dependent array
    return {
        "ufunc_2nd": lambda a: np.add(_zero(), a),
        "ufunc_mixed": lambda a: np.add(np.zeros(2), a),
        "ufunc_out": lambda a: np.add(a, 0, out=np.zeros(2)),
        "ufunc_reduce": lambda a: np.add.reduce([a, _zero()]),
        "binop_2nd": lambda a: _zero() + a,
        "binop_r": lambda a: np.zeros(2) + a,
        "rsub": lambda a: -(0 - a),
        "neg": lambda a: -(-a),
        "abs": lambda a: abs(a),
        "matmul": lambda a: np.eye(2) @ a,
        "dot": lambda a: np.dot(np.eye(2), a),
        "iter": lambda a: list(a),
        "items": lambda a: [a[0], a[1]],
        "asarray_f": lambda a: np.asarray(a, dtype=complex).real,
        "array": lambda a: np.array(a),
        "array_int": lambda a: np.array(a, dtype=a.dtype),
        "np_copy": lambda a: np.copy(a),
        "astype": lambda a: a.astype(a.dtype),
        "plus": lambda a: +a,
        "T": lambda a: a.T,
        "flatiter": lambda a: list(a.flat),
        "real": lambda a: a.real,
        "reshape": lambda a: np.asarray(a.reshape((2, 1)))[:, 0],
        "fancy": lambda a: np.asarray(a[[0, 1]]),
        "concat": lambda a: np.concatenate([a, a])[2:],
        "einsum": lambda a: np.einsum("ij,j->i", np.eye(2), a),
        "where": lambda a: np.where([True, True], a, 0),
        "slice_of_slice": lambda a: a[:][0:2],
        "tolist": lambda a: a.tolist(),
        "cmp": lambda a: [int(np.nonzero(np.asarray(a[k : k + 1] == np.arange(P)))[0][0]) for k in range(2)],
    }


# forms whose result belongs to the reader
COPIES = ["array", "array_int", "np_copy", "ufunc_2nd", "ufunc_mixed", "binop_2nd", "binop_r", "rsub", "neg", "abs", "matmul", "dot", "concat", "where", "astype", "plus"]


class _Lazy(dict):
    def __contains__(self, k):
        if not self:
            self.update(_forms())
        return dict.__contains__(self, k)


FORMS = _Lazy()
HOWR = ["prop", "held", "method", "flat", "ufunc", "arith", "view"]
HOWR += list(_forms())


def random_exec(rng, nops):
    import numpy as np

    net = random_net(rng)
    R = NetR(net)
    ev0 = {"op": "net", "net": net, "init": [[0] * nd["w"] for nd in net]}
    tr = [ev0]
    hows = [None]
    prim = [i for i, nd in enumerate(net, 1) if nd["k"] in ("prim", "sync")]
    der = [i for i, nd in enumerate(net, 1) if nd["k"] in ("der", "pipe")]
    for _ in range(nops):
        R.ev.clear()
        x = rng.random()
        if x < 0.5:
            i = rng.randint(1, len(net))
            how = rng.choice(HOWR)
            v = R.read(i, how)
            tr.append({"op": "read", "n": i, "v": v, "ev": list(R.ev)})
        elif x < 0.95:
            i = rng.choice(prim)
            cell = rng.randint(0, 2) if R.arr(i) else 0
            how = rng.choice(["prop", "held", "view", "flat"])
            v = [rng.randrange(P) for _ in range(net[i - 1]["w"] if cell == 0 else 1)]
            R.write(i, cell, v, how)
            tr.append({"op": "write", "n": i, "cell": cell, "v": v, "ev": list(R.ev)})
        else:
            i = rng.choice(der)
            how = "set"
            try:
                setattr(R.o, "n%d" % i, 5)
                raised = False
            except Exception:
                raised = True
            tr.append({"op": "refuse", "n": i, "raised": raised})
        hows.append(how)
    for i in range(1, len(net) + 1):
        R.ev.clear()
        v = R.read(i, "prop")
        tr.append({"op": "read", "n": i, "v": v, "ev": list(R.ev)})
        hows.append("prop")
    return tr, hows


TCFG = """SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""

THCFG = """CONSTANTS Readers = {1,2}
SPECIFICATION Spec
VIEW view
INVARIANTS OnceEach NoStaleReturn MutualExclusion EmitInit
ACTION_CONSTRAINT EmitTr
CHECK_DEADLOCK FALSE
"""


class NetT:
    """a -> c1 -> c2 with functions that stop at a gate."""

    def __init__(self, array):
        import numpy as np
        from ipi.utils.depend import depend_value, depend_array, dproperties

        class O:
            pass

        self.o = o = O()
        self.cond = threading.Condition()
        self.begun = []
        self.allowed = set()

        def gate(n):
            with self.cond:
                self.begun.append(n)
                self.cond.notify_all()
                k = (n, self.begun.count(n))
                if not self.cond.wait_for(lambda: k in self.allowed, timeout=20):
                    raise RuntimeError("gate timeout")

        if array:
            o._a = depend_array(name="a", value=np.zeros(2, int))
        else:
            o._a = depend_value(name="a", value=0)

        def f1():
            gate("c1")
            return o.a * 3 + 1

        def f2():
            v = o.c1
            gate("c2")
            return v * 5 + 2

        if array:
            o._c1 = depend_array(name="c1", value=np.zeros(2, int), func=f1, dependencies=[o._a])
            o._c2 = depend_array(name="c2", value=np.zeros(2, int), func=f2, dependencies=[o._c1])
        else:
            o._c1 = depend_value(name="c1", func=f1, dependencies=[o._a])
            o._c2 = depend_value(name="c2", func=f2, dependencies=[o._c1])
        dproperties(O, ["a", "c1", "c2"])
        o.a = 2
        self.array = array
        self.res = {}
        self.th = {}

    def start(self, t, n):
        def work():
            try:
                v = getattr(self.o, n)
                if self.array:
                    v = [int(x) for x in v]
                    v = v[0] if v[0] == v[1] else v
                r = int(v) if not isinstance(v, list) else v
            except BaseException as e:
                r = repr(e)
            with self.cond:
                self.res[t] = (n, r)
                self.cond.notify_all()

        self.th[t] = threading.Thread(target=work, daemon=True)
        self.th[t].start()

    def finish_eval(self, n, k):
        with self.cond:
            self.allowed.add((n, k))
            self.cond.notify_all()

    def wait(self, pred, timeout):
        with self.cond:
            return self.cond.wait_for(pred, timeout=timeout)


EXPT = {"c1": 7, "c2": 37}


def replay_threads(ctx, path, array):
    net = NetT(array)
    bad = None
    for f, a, t in path:
        if a["op"] == "start":
            net.start(a["t"], a["n"])
            # readers blocked on someone else's evaluation do nothing visible:
            # a short pause lets them reach it (the verdict does not depend on it)
            net.wait(lambda: False, 0.002)
        elif a["op"] == "begin":
            if not net.wait(lambda: a["n"] in net.begun, 10):
                bad = "evaluation of %s never began" % a["n"]
                break
        elif a["op"] == "end":
            net.finish_eval(a["n"], 1)
        elif a["op"] == "return":
            if not net.wait(lambda: a["t"] in net.res, 10):
                bad = "reader %s never returned" % a["t"]
                break
            n, v = net.res[a["t"]]
            if v != EXPT[n]:
                bad = "reader %s of %s got %r" % (a["t"], n, v)
                break
    for n in ("c1", "c2"):
        for k in range(1, 9):
            net.finish_eval(n, k)
    for th in net.th.values():
        th.join(10)
    if bad is None:
        for n, v in net.res.values():
            if v != EXPT[n]:
                bad = "a reader of %s got %r" % (n, v)
        for n in ("c1", "c2"):
            if net.begun.count(n) > 1:
                bad = "%s was evaluated %d times" % (n, net.begun.count(n))
        if len(net.res) < len(net.th):
            bad = "a reader never returned"
    if bad:
        ctx.violation("concurrent readers: " + bad, {"array": array, "schedule": [a for _, a, _ in path], "begun": net.begun})
        return False
    return True


def run(ctx):
    # 1. exhaustive replay
    r, g = vf.tlc_graph("Depend", CFG, timeout=300)
    ctx.tlc_stats(r)
    paths = g.paths(maxlen=60, rng=ctx.rng)
    for _ in range(ctx.n(300, 4000)):
        paths.append(g.random_walk(ctx.rng, 80))
    ntr = 0
    for p in paths:
        if not replay(ctx, p, g):
            break
        ntr += len(p)
        ctx.traces()
    ctx.count("replayed_transitions", ntr)
    ctx.sample({"replayed": [x[1] for x in paths[0]][:8]})

    # 2. random networks, validated by TLC
    tr, hows = [], []
    for _ in range(ctx.n(150, 1500)):
        t, h = random_exec(ctx.rng, ctx.n(60, 120))
        tr.append(t)
        hows.append(h)
    r, prog = vf.validate_traces("DependTrace", TCFG, tr, timeout=600)
    ctx.tlc_stats(r)
    for t, h, k in zip(tr, hows, prog):
        if k != len(t):
            ctx.violation(
                "execution of a random dependency network is not a behaviour of the specification",
                {"net": t[0]["net"], "events": [dict(e, how=w) for e, w in zip(t[1 : k + 1], h[1 : k + 1])], "rejected": t[k] if k < len(t) else None},
            )
            break
        ctx.traces()
    ctx.sample({"network": tr[0][0]["net"][:4], "events": tr[0][1:5]})
    # binding: a corrupted observation must be rejected
    import copy

    bad = copy.deepcopy(tr[0])
    i = max(j for j, e in enumerate(bad) if e["op"] == "read")
    bad[i]["v"][0] += 1
    r, prog = vf.validate_traces("DependTrace", TCFG, [bad], timeout=300)
    if prog[0] == len(bad):
        raise vf.MachineryError("DependTrace accepts a corrupted trace")

    # 3. concurrent readers
    r, g = vf.tlc_graph("DependThreads", THCFG, timeout=300)
    ctx.tlc_stats(r)
    paths = g.paths(maxlen=40, rng=ctx.rng)
    for _ in range(ctx.n(100, 1000)):
        paths.append(g.random_walk(ctx.rng, 40))
    for p in paths:
        ok = True
        for array in (False, True):
            ok = ok and replay_threads(ctx, p, array)
            ctx.traces()
        if not ok:
            break
    ctx.sample({"thread_schedule": [x[1] for x in paths[0]]})
    ctx.assumptions += [
        "concurrent readers without a concurrent writer (the library documents thread safety of evaluation only)",
        "raw buffers obtained through dstrip are outside the property (they bypass the library by design)",
    ]
