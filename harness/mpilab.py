"""Laboratory for the MPI force fields: an instrumented communicator stands in
for mpi4py, scripted workers answer when told to.  Reads [[index, scenario]..]
from stdin, prints one '@@R [index, result]' line per scenario.  Each scenario
runs in a forked child (the MPI world of i-PI is process-wide)."""

import json
import os
import re
import random
import sys
import threading
import time
import types

import numpy as np


class Blocked(Exception):
    pass


class AbortCalled(Exception):
    pass


def make_mpi(comm):
    m = types.ModuleType("mpi4py")
    m.__path__ = []
    m.rc = types.SimpleNamespace()
    M = types.ModuleType("mpi4py.MPI")
    M.ANY_SOURCE, M.ANY_TAG = -2, -1
    M.INT, M.DOUBLE, M.BYTE = "INT", "DOUBLE", "BYTE"
    M.CHAR, M.INT32_T, M.Comm = "BYTE", "INT", Comm
    SIZE = {"INT": 4, "DOUBLE": 8, "BYTE": 1}

    class Status:
        def __init__(self):
            self.src = self.tag = None
            self.nbytes = 0

        def Get_source(self):
            return self.src

        def Get_tag(self):
            return self.tag

        def Get_count(self, t="BYTE"):
            return self.nbytes // SIZE[t]

        source = property(Get_source)
        tag_ = property(Get_tag)

    M.Status = Status
    M.COMM_WORLD = comm
    M.Request = object
    m.MPI = M
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = M
    return M


class Comm:
    def __init__(self, lab):
        self.lab = lab
        self.cv = threading.Condition()
        self.box = []  # (src, tag, bytes) in order of arrival
        self.inside = 0
        self.overlap = False
        self.half = {}  # worker -> first part of a two-part message
        self.split = 0

    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.lab.size

    rank = property(Get_rank)
    size = property(Get_size)

    def Split(self, color=0, key=0):
        self.split += 1
        return self

    def Abort(self, code=0):
        raise AbortCalled()

    def guard(self):
        comm = self

        class G:
            def __enter__(s):
                with comm.cv:
                    comm.inside += 1
                    if comm.inside > 1:
                        comm.overlap = True
                if comm.lab.threaded:
                    time.sleep(3e-4)

            def __exit__(s, *a):
                with comm.cv:
                    comm.inside -= 1

        return G()

    # ---- to the workers
    def Send(self, buf, dest, tag=0):
        with self.guard():
            arr = np.ascontiguousarray(buf[0] if isinstance(buf, (list, tuple)) else buf)
            self.lab.deliver(dest, tag, arr.tobytes())

    Ssend = Bsend = Rsend = Send

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return types.SimpleNamespace(Wait=lambda *a: None, wait=lambda *a: None, Test=lambda *a: True, test=lambda *a: (True, None))

    # ---- from the workers
    def find(self, source, tag):
        for i, (s, t, b) in enumerate(self.box):
            if source in (-2, s) and tag in (-1, t):
                return i
        return None

    def block(self, source, tag):
        t0 = time.time()
        with self.cv:
            while self.find(source, tag) is None:
                if time.time() - t0 > 5:
                    raise Blocked("nothing from %s with tag %s" % (source, tag))
                self.cv.wait(0.5)
            return self.find(source, tag)

    def fill(self, status, i):
        if status is not None:
            s, t, b = self.box[i]
            status.src, status.tag, status.nbytes = s, t, len(b)

    def Probe(self, source=-2, tag=-1, status=None):
        with self.guard():
            self.fill(status, self.block(source, tag))
            return True

    def Iprobe(self, source=-2, tag=-1, status=None):
        with self.guard():
            with self.cv:
                i = self.find(source, tag)
                if i is None:
                    return False
                self.fill(status, i)
                return True

    def Recv(self, buf, source=-2, tag=-1, status=None):
        with self.guard():
            self.block(source, tag)
            with self.cv:
                i = self.find(source, tag)
                self.fill(status, i)
                s, t, b = self.box.pop(i)
            arr = buf[0] if isinstance(buf, (list, tuple)) else buf
            if len(b) > arr.nbytes:
                raise Blocked("truncated message")
            flat = arr.reshape(-1).view(np.uint8)
            flat[: len(b)] = np.frombuffer(b, np.uint8)
            if t == 4:
                self.lab.log("COLLECT", w=self.lab.wid[s])

    def push(self, src, tag, b):
        with self.cv:
            self.box.append((src, tag, b))
            self.cv.notify_all()


class Lab:
    def __init__(self, sc):
        self.sc = sc
        self.rng = random.Random(sc["seed"])
        self.threaded = sc["threaded"]
        self.ev = []
        self.evlock = threading.Lock()
        self.cv = threading.Condition()
        self.work = {}
        self.k = 0
        self.why = []
        self.stopw = False
        # world: groups of ranks, each with a root, a name
        self.groups = sc["groups"]  # [[root, members, owner]]
        self.size = 1 + sum(len(g[1]) for g in self.groups)
        self.wid = {g[0]: i + 1 for i, g in enumerate(self.groups)}
        self.root = {i + 1: g[0] for i, g in enumerate(self.groups)}

    def log(self, e, **kw):
        with self.evlock:
            self.ev.append(dict(e=e, **kw))

    # ---------------------------------------------------------------- requests
    def struct(self, r):
        nat = self.sc["nat"][self.sc["reqff"][r - 1] - 1]
        rs = np.random.RandomState(1000 + r)
        pos = rs.uniform(-3, 3, 3 * nat)
        h = np.diag([5.0 + r, 6.0, 7.0])
        h[0, 1] = 0.25 * r
        return pos, h, np.linalg.inv(h)

    def compute(self, w, r):
        pos, h, ih = self.struct(r)
        pot = -(1000.0 * r + 10.0 * w)
        f = 2.0 * pos + w
        v = np.arange(9.0).reshape(3, 3) + 100 * r + 0.5 * w
        kind = (r + self.sc["seed"]) % 4
        x = ["", '{"dipole": [%d, %d]}' % (r, w), "plain \u00e4\u00df %d %d" % (r, w), "x" * (50 * r)][kind]
        return pot, f, v, x

    def check(self, r, req, offset):
        """the worker whose numbers these are, and whether all of it is right"""
        try:
            pot, f, v, x = req["result"]
            p = -(pot + offset) - 1000.0 * r
            w = int(round(p / 10.0))
            e = self.compute(w, r)
            exp = {}
            if e[3]:
                try:
                    exp = json.loads(e[3])
                except Exception:
                    exp = {}
                exp["raw"] = e[3]
            ok = abs(pot + offset - e[0]) < 1e-6 and np.array_equal(f, e[1]) and np.array_equal(v, e[2])
            if not ok:
                self.why.append("numbers of request %d" % r)
            if ok and (x or {}) != exp and (x or {}) != dict(exp, raw=exp.get("raw", "")):
                ok = False
                self.why.append("extras of request %d" % r)
            return w, bool(ok)
        except Exception as ex:
            self.why.append("result of request %d: %r" % (r, ex))
            return 0, False

    # ---------------------------------------------------------------- workers
    def deliver(self, dest, tag, b):
        w = self.wid.get(dest)
        if w is None:
            self.log("stray", dest=int(dest))
            return
        half = self.comm.half
        if tag == 2:
            if w not in half:
                half[w] = (2, np.frombuffer(b, np.int32))
                return
            t, hd = half.pop(w)
            ok = t == 2 and len(hd) == 2 and hd[1] == len(b)
            try:
                txt = b.decode()
            except Exception:
                txt, ok = "", False
            f = self.sc["own"][w - 1]
            for kk, vv in (self.sc["pars"][f - 1] or {}).items():
                if not re.search(r"%s\s*:\s*%s\b" % (kk, vv), txt):
                    ok = False
                    self.why.append("INIT of worker %d lacks %s" % (w, kk))
            m = re.search(r"batch_size\s*:\s*(\d+)", txt)
            nb = int(m.group(1)) if m else 1
            if nb != self.sc["batch"]:
                ok = False
                self.why.append("INIT of worker %d: batch size %s" % (w, nb))
            self.log("INIT", w=w, ok=bool(ok))
        elif tag == 3:
            if w not in half:
                half[w] = (3, np.frombuffer(b, np.int32))
                return
            t, hd = half.pop(w)
            body = np.frombuffer(b, float)
            bt, ok = [], t == 3 and len(hd) == 2
            if ok:
                nat, nb = int(hd[0]), int(hd[1])
                st = 18 + 3 * nat
                ok = len(body) == nb * st and nb > 0
                for i in range(nb if ok else 0):
                    s = body[i * st : (i + 1) * st]
                    hit = 0
                    for r in range(1, self.sc["nr"] + 1):
                        pos, h, ih = self.struct(r)
                        if len(pos) == 3 * nat and np.array_equal(s[18:], pos):
                            hit = r
                            if not (np.allclose(s[:9], h.reshape(-1), atol=1e-12) and np.allclose(s[9:18], ih.reshape(-1), atol=1e-12)):
                                ok = False
                                self.why.append("cell of request %d" % r)
                    bt.append(hit)
                    if not hit:
                        ok = False
                        self.why.append("unknown structure sent to worker %d" % w)
            self.log("WORK", w=w, b=bt, ok=bool(ok))
            with self.cv:
                self.work.setdefault(w, []).append(bt)
                self.cv.notify_all()
        elif tag == 6:
            self.log("EXIT", w=w)
        else:
            self.log("stray", w=w, tag=int(tag))

    def answer(self, w):
        if not self.work.get(w):
            return False
        bt = self.work[w].pop(0)
        num, ext = b"", b""
        for r in bt:
            p, f, v, x = self.compute(w, r)
            num += np.array([p]).tobytes() + f.tobytes() + v.tobytes()
            xb = x.encode()
            ext += np.int32(len(xb)).tobytes() + xb
        self.log("ANS", w=w)
        self.comm.push(self.root[w], 4, num)
        if self.rng.random() < 0.3:
            threading.Timer(0.005, lambda: self.comm.push(self.root[w], 5, ext)).start()
        else:
            self.comm.push(self.root[w], 5, ext)
        return True

    # ---------------------------------------------------------------- run
    def run(self):
        sc = self.sc
        self.comm = Comm(self)
        M = make_mpi(self.comm)
        self.log("world", nw=len(self.groups), nf=sc["nf"], nr=sc["nr"], batch=sc["batch"], owner=[g[2] for g in self.groups], reqff=sc["reqff"])
        # HELLO messages in some order of arrival; both parts of one root in order
        pend = {}
        names = sc["names"]
        for root, mem, own in self.groups:
            nm = ("" if own == 0 else names[own - 1] if own <= sc["nf"] else "stranger").encode()
            pend[root] = [np.array([root, len(mem)] + mem, np.int32).tobytes(), nm]
        while pend:
            k = self.rng.choice(sorted(pend))
            self.comm.box.append((k, 1, pend[k].pop(0)))
            if not pend[k]:
                del pend[k]
        from ipi.engine.forcefields import FFMPI
        from ipi.engine.atoms import Atoms
        from ipi.engine.cell import Cell

        ffs = []
        for i in range(sc["nf"]):
            ff = FFMPI(name=names[i], offset=sc["offset"][i], pars=sc["pars"][i], batch_size=sc["batch"], latency=1e-4)
            ffs.append(ff)
        refused = False
        for i, ff in enumerate(ffs):
            try:
                if self.threaded:
                    ff.start()
                else:
                    ff.interface.open()
                self.log("open", f=i + 1)
            except (AbortCalled, ValueError):
                self.log("refuse", f=i + 1)
                refused = True
                break
        reqs = {}

        def submit(r):
            pos, h, ih = self.struct(r)
            a = Atoms(len(pos) // 3)
            a.q[:] = pos
            c = Cell(h)
            f = sc["reqff"][r - 1]
            self.log("submit", r=r)
            reqs[r] = ffs[f - 1].queue(a, c, reqid=r)

        seen = set()

        def harvest(release=True):
            for r, q in list(reqs.items()):
                if r not in seen and q["status"] == "Done":
                    f = sc["reqff"][r - 1]
                    w, ok = self.check(r, q, sc["offset"][f - 1])
                    ok = ok and q._event_done.is_set()
                    seen.add(r)
                    self.log("done", r=r, w=w, ok=ok)
                    if release:
                        ffs[f - 1].release(q)

        stuck = False
        if not refused:
            if self.threaded:
                delays = {w: self.rng.choice([0, 0, 0.001, 0.004]) for w in self.root}

                def worker(w):
                    while not self.stopw:
                        with self.cv:
                            if not self.work.get(w):
                                self.cv.wait(0.05)
                        if self.work.get(w):
                            time.sleep(delays[w] * self.rng.random())
                            self.answer(w)

                for w in self.root:
                    threading.Thread(target=worker, args=(w,), daemon=True).start()
                t0 = time.time()
                stopped = set()
                for gi, group in enumerate(sc["rounds"]):
                    for r in group:
                        submit(r)
                    if gi == len(sc["rounds"]) - 1:
                        # force fields with nothing left are stopped while the
                        # others still work
                        for i, ff in enumerate(ffs):
                            if not any(sc["reqff"][r - 1] == i + 1 for r in group):
                                self.log("stop", f=i + 1)
                                ff.stop()
                                stopped.add(i)
                    while not all(r in seen for r in group):
                        harvest(self.rng.random() < 0.8)
                        time.sleep(0.0005)
                        if time.time() - t0 > 15:
                            stuck = True
                            break
                    if stuck:
                        break
                for i, ff in enumerate(ffs):
                    if i not in stopped:
                        self.log("stop", f=i + 1)
                        ff.stop()
            else:
                active = set()
                for s in sc["steps"]:
                    if s[0] == "submit":
                        submit(s[1])
                        active.add(sc["reqff"][s[1] - 1])
                    elif s[0] == "poll":
                        if s[1] in active:
                            ffs[s[1] - 1].poll()
                            harvest(self.rng.random() < 0.7)
                    elif s[0] == "ans":
                        self.answer(s[1])
                if sc["drain"]:
                    for _ in range(4 * sc["nr"] + 8):
                        for f in sorted(active):
                            ffs[f - 1].poll()
                            harvest()
                        ws = list(self.root)
                        self.rng.shuffle(ws)
                        for w in ws:
                            self.answer(w)
                    stuck = not all(r in seen for r in reqs)
                for i, ff in enumerate(ffs):
                    self.log("stop", f=i + 1)
                    for r, q in reqs.items():
                        if r not in seen and sc["reqff"][r - 1] == i + 1:
                            pass
                    ff.stop()
                    for r, q in reqs.items():
                        if r not in seen and sc["reqff"][r - 1] == i + 1:
                            self.log("left", r=r, s=str(q["status"]))
            if stuck:
                self.log("stuck", left=[r for r in reqs if r not in seen])
            if self.comm.overlap:
                self.log("overlap")
            self.log("quiet")
        self.stopw = True
        return dict(trace=self.ev, why=self.why)


def main():
    scs = json.loads(sys.stdin.read())
    real = os.dup(1)
    os.dup2(2, 1)
    dummy = types.SimpleNamespace()
    from ipi.utils.messages import verbosity
    import ipi.engine.forcefields  # noqa  (imported once, before forking)

    verbosity.level = "quiet"
    for i, sc in scs:
        pid = os.fork()
        if pid == 0:
            try:
                r = Lab(sc)
                out = r.run()
            except BaseException as ex:
                import traceback

                out = dict(trace=r.ev, why=r.why, error="".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-1500:])
            os.write(real, ("@@R " + json.dumps([i, out], default=str) + "\n").encode())
            os._exit(0)
        t0 = time.time()
        while time.time() - t0 < 40:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.002)
        else:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.write(real, ("@@R " + json.dumps([i, dict(hung=True, trace=[], why=[])]) + "\n").encode())
    os._exit(0)


if __name__ == "__main__":
    main()
