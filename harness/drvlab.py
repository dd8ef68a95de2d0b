"""Laboratory for the drivers: a scripted server holds conversations with the
real Python driver (forked) or Fortran driver (process built from the tree)."""

import importlib.util
import os
import random
import shutil
import signal
import socket
import subprocess
import sys
import time

import numpy as np

from lib import vf

HDR = 12
NEWPOS = {}


def build_f90():
    """builds the Fortran driver of the tree in a scratch directory"""
    d = os.path.join(vf.scratch("f90_"), "f90")
    shutil.copytree(
        os.path.join(vf.REPO, "drivers", "f90"), d, ignore=shutil.ignore_patterns("*.o", "*.mod", "*.x")
    )
    r = subprocess.run(["make", "-j8", "-C", d, "driver.x", "MPI=1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(d, "driver.x")
    if r.returncode or not os.path.exists(exe):
        raise vf.MachineryError("the Fortran driver does not build: " + r.stdout[-800:])
    return exe


def load_driver():
    spec = importlib.util.spec_from_file_location("vf_ipi_driver", os.path.join(vf.REPO, "drivers", "py", "driver.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def structures(rng, pes, nat, ns):
    """ns structures (pos, cell)"""
    out = []
    base = None
    for s in range(ns):
        if pes in ("lj", "qtip4pf", "water_dip_pol"):
            L = 25.0
            if base is None:
                base = np.diag([L, L * 1.1, L * 0.9]) if pes != "lj" else np.array([[L, 3.0, -2.0], [0, L, 4.0], [0, 0, L]])
            h = base
            if pes == "lj":
                p = (np.arange(nat)[:, None] * np.array([3.1, 0.4, 0.7]) + rng.normal(0, 0.4, (nat, 3)))
            else:
                w = np.array([[0.0, 0, 0], [1.43, 1.1, 0.02], [-1.43, 1.1, -0.03]])
                p = np.concatenate([w + np.array([6.0 * k, 0.3 * k, 0]) + rng.normal(0, 0.05, (3, 3)) for k in range(nat // 3)])
        else:
            h = np.diag(rng.uniform(5, 9, 3)) + np.triu(rng.uniform(-1, 1, (3, 3)), 1)
            p = rng.normal(0, 1, (nat, 3))
        out.append((p, h))
    # two structures which differ in one coordinate only
    if ns > 1:
        out[1] = (out[0][0].copy(), out[0][1].copy())
        out[1][0][-1, -1] += 0.25
    return out


def analytic(pes, p, h):
    if pes == "harm3d":
        k = 1.3
        f = -k * p
        return 0.5 * k * (p**2).sum(), f, f.T @ p, None
    if pes == "harm":
        f = np.zeros_like(p)
        f[0, 0] = -1.3 * p[0, 0]
        v = np.zeros((3, 3))
        v[0, 0] = f[0, 0] * p[0, 0]
        return 0.5 * 1.3 * p[0, 0] ** 2, f, v, None
    if pes == "gas":
        return 0.0, 0 * p, np.full((3, 3), 1e-200), None
    if pes == "batch-dummy":
        return 0.0, 0 * p, np.zeros((3, 3)), ""
    if pes == "harmonic":
        return 0.5 * 1.3 * (p**2).sum(), -1.3 * p, np.zeros((3, 3)), "nada"
    if pes == "vfpes":
        from harness import drvpes

        return drvpes.VfPes().compute_structure(h, p)
    return None


F90_ARGS = {"harm3d": ["-m", "harm3d", "-o", "1.3"], "harm": ["-m", "harm", "-o", "1.3"], "gas": ["-m", "gas"], "batch-dummy": ["-m", "batch-dummy"], "lj": ["-m", "lj", "-o", "3.0,0.01,9.0"], "qtip4pf": ["-m", "qtip4pf"], "water_dip_pol": ["-m", "water_dip_pol"]}


class Stall(Exception):
    pass


class Lab:
    def __init__(self, sc):
        self.sc = sc
        self.rng = random.Random(sc["seed"])
        self.ev = [dict(need=sc["need"], push=False)]
        self.segs = {}
        self.view = {}
        self.named = False

    # ---- wire
    def send(self, b, cut=None):
        frag = self.sc["frag"]
        if not frag:
            self.c.sendall(b)
            return
        i = 0
        while i < len(b):
            k = self.rng.choice([1, 2, 3, 5, 7, 12, 40, 400, len(b)])
            self.c.sendall(b[i : i + k])
            i += k
            if frag > 1 and self.rng.random() < 0.3:
                time.sleep(self.rng.choice([0, 0.001, 0.003]))

    def exact(self, n):
        b = b""
        while len(b) < n:
            try:
                x = self.c.recv(n - len(b))
            except socket.timeout:
                raise Stall("no answer")
            if not x:
                raise Stall("the driver closed the connection")
            b += x
        return b

    def num(self, n, t=np.float64):
        return np.frombuffer(self.exact(n * np.dtype(t).itemsize), t)

    # ---- messages
    def pad(self, s):
        return s.ljust(HDR).encode()

    def m_init(self):
        B = self.sc["batch"]
        s = self.rng.choice([" ", " a : b , x : 12 , ", " é : ∆ , "]) + (" batch_size:%d , " % B if B > 1 else "")
        b = s.encode()
        return self.pad("INIT") + np.array([self.rng.randint(0, 9), len(b)], np.int32).tobytes() + b

    def m_pos(self, ids):
        st = [self.st[i - 1] for i in ids]
        nat = self.sc["nat"]
        if self.sc["mode"] == "shm":
            m = self.pad("POSDATA") + np.int32(nat).tobytes()
            B = self.sc["batch"]
            sizes = dict(pos=B * nat * 3, h=B * 9, ih=B * 9, pot=B, force=B * nat * 3, vir=B * 9)
            if not self.named:
                self.named = True
                for kind in ("pos", "h", "ih", "pot", "force", "vir"):
                    name = "vfdrv_%d_%d_%s" % (os.getpid(), self.rng.randint(0, 10**9), kind)
                    self.segs[kind] = "/dev/shm/" + name
                    self.view[kind] = np.memmap(self.segs[kind], float, "w+", shape=(sizes[kind],))
                    m += np.int32(len(name)).tobytes() + name.encode()
            self.view["pos"][:] = np.concatenate([p.flatten() for p, h in st])
            self.view["h"][:] = np.concatenate([h.flatten() for p, h in st])
            self.view["ih"][:] = np.concatenate([np.linalg.inv(h).flatten() for p, h in st])
            # nothing of an earlier answer may survive
            for k in ("pot", "force", "vir"):
                self.view[k][:] = 7e77
            return m
        if self.sc["batch"] > 1:
            b = self.pad("POSDATA") + np.int32(nat).tobytes()
            b += b"".join(h.tobytes() + np.ascontiguousarray(np.linalg.inv(h)).tobytes() for p, h in st)
            return b + b"".join(np.ascontiguousarray(p).tobytes() for p, h in st)
        p, h = st[0]
        return self.pad("POSDATA") + h.tobytes() + np.ascontiguousarray(np.linalg.inv(h)).tobytes() + np.int32(nat).tobytes() + np.ascontiguousarray(p).tobytes()

    def read_force(self):
        w = self.exact(HDR)
        if w != self.pad("FORCEREADY"):
            raise Stall("got %r instead of FORCEREADY" % w)
        B, nat = self.sc["batch"], self.sc["nat"]
        if self.sc["mode"] == "shm":
            pot = np.array(self.view["pot"])
            force = np.array(self.view["force"]).reshape(B, -1)
            vir = np.array(self.view["vir"]).reshape(B, 9)
        else:
            pot = self.num(B)
            n = int(self.num(1, np.int32)[0])
            if n != nat:
                raise Stall("number of atoms %d" % n)
            force = self.num(B * nat * 3).reshape(B, -1)
            vir = self.num(B * 9).reshape(B, 9)
        ex = []
        for _ in range(B):
            n = int(self.num(1, np.int32)[0])
            if n < 0 or n > 10**7:
                raise Stall("length of the extras %d" % n)
            ex.append(self.exact(n))
        return pot, force, vir, ex

    def ident(self, want, res):
        """which structures do the parts of an answer belong to"""
        pot, force, vir, ex = res
        e = dict(e="force", pot=[], force=[], vir=[], extra=[])

        def who(w, ok):
            for i in [w] + list(range(1, len(self.st) + 1)):
                if ok(self.ref[i - 1]):
                    return i
            return 0

        def close(a, b):
            return np.allclose(np.asarray(a, float).flatten(), np.asarray(b, float).flatten(), rtol=1e-8, atol=1e-10)

        for k, w in enumerate(want):
            e["pot"].append(who(w, lambda r: close(pot[k], r[0])))
            e["force"].append(who(w, lambda r: close(force[k], r[1])))
            e["vir"].append(who(w, lambda r: close(vir[k], r[2])))
            e["extra"].append(who(w, lambda r: r[3] is None or ex[k] == (r[3].encode() if isinstance(r[3], str) else r[3])))
        return e

    # ---- the process
    def start(self):
        sc = self.sc
        self.dir = vf.scratch("drv_")
        if sc["mode"] == "inet":
            s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            s.bind(("127.0.0.1", 0))
            addr, port, pre = "127.0.0.1", s.getsockname()[1], ""
        else:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            pre, addr, port = self.dir + "/s_", "x", 0
            s.bind(pre + addr)
        s.listen(1)
        s.settimeout(20)
        self.proc = None
        null = open(os.devnull, "w")
        if sc["lang"] == "f90":
            a = [sc["exe"], "-a", addr] + F90_ARGS[sc["pes"]]
            a += {"unix": ["-u", "-S", pre], "shm": ["-u", "-S", pre, "--shm"], "inet": ["-p", str(port)]}[sc["mode"]]
            self.proc = subprocess.Popen(a, cwd=self.dir, stdout=null, stderr=null)
        elif sc.get("sub"):
            a = [sys.executable, os.path.join(vf.REPO, "drivers", "py", "driver.py"), "-a", addr]
            a += {"unix": ["-u", "-S", pre], "shm": ["-S", pre, "--shm"], "inet": ["-p", str(port)]}[sc["mode"]]
            if sc["pes"] == "vfpes":
                a += ["-m", "custom", "-P", os.path.join(vf.VERIF, "harness", "drvpes.py")]
            else:
                a += ["-m", "harmonic", "-o", "1.3"]
            env = dict(os.environ, PYTHONPATH=vf.REPO, PYTHONDONTWRITEBYTECODE="1")
            self.proc = subprocess.Popen(a, cwd=self.dir, stdout=null, stderr=null, env=env)
        else:
            drv = load_driver()
            from harness import drvpes
            from ipi.pes.harmonic import Harmonic_driver

            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.dup2(null.fileno(), 1)
                    os.dup2(null.fileno(), 2)
                    s.close()
                    p = drvpes.VfPes() if sc["pes"] == "vfpes" else Harmonic_driver(1.3)
                    drv.run_driver(unix=sc["mode"] == "unix", address=addr, port=port, driver=p, sockets_prefix=pre, shm=sc["mode"] == "shm")
                    code = 0
                except BaseException:
                    pass
                finally:
                    os._exit(code)
            self.pid = pid
        null.close()
        try:
            self.c, _ = s.accept()
        except socket.timeout:
            raise Stall("the driver does not connect")
        finally:
            s.close()
        self.c.settimeout(20)

    def wait(self, t):
        t0 = time.time()
        while time.time() - t0 < t:
            if self.proc is not None:
                if self.proc.poll() is not None:
                    return True
            else:
                p, st = os.waitpid(self.pid, os.WNOHANG)
                if p:
                    self.pid = None
                    return True
            time.sleep(0.005)
        return False

    def stop(self):
        try:
            self.c.close()
        except Exception:
            pass
        if self.proc is not None:
            if self.proc.poll() is None:
                self.proc.kill()
                self.proc.wait()
        elif getattr(self, "pid", None):
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        self.view = {}
        for s in self.segs.values():
            if os.path.exists(s):
                os.unlink(s)
        shutil.rmtree(self.dir, ignore_errors=True)

    def one(self):
        """the next answer"""
        kind, want = self.due.pop(0)
        if kind == "status":
            w = self.exact(HDR)
            self.ev.append(dict(e="word", w=w.decode("latin1").strip() if len(w.strip()) else "?"))
        else:
            self.ev.append(self.ident(want, self.read_force()))

    def run(self):
        sc = self.sc
        rng = np.random.RandomState(sc["seed"] % 2**31)
        self.st = structures(rng, sc["pes"], sc["nat"], sc["ns"])
        self.ref = [analytic(sc["pes"], p, h) for p, h in self.st]
        if self.ref[0] is None:
            self.ref = sc["ref"]
        self.due, fresh = [], False
        last = None
        try:
            self.start()
            for op in sc["ops"]:
                k = op[0]
                if k == "status":
                    self.send(self.pad("STATUS"))
                    self.ev.append(dict(e="status"))
                    self.due.append(("status", None))
                elif k == "init":
                    self.send(self.m_init())
                    self.ev.append(dict(e="init"))
                elif k == "pos":
                    if sc["mode"] == "shm":
                        # shared memory may be written once the driver is done with it
                        if fresh:
                            self.send(self.pad("STATUS"))
                            self.ev.append(dict(e="status"))
                            self.due.append(("status", None))
                        while self.due:
                            self.one()
                    self.send(self.m_pos(op[1]))
                    self.ev.append(dict(e="pos", s=op[1]))
                    last, fresh = op[1], True
                elif k == "get":
                    self.send(self.pad("GETFORCE"))
                    self.ev.append(dict(e="get"))
                    self.due.append(("force", last))
                elif k == "recv":
                    if self.due:
                        self.one()
                elif k in ("exit", "drop", "cut"):
                    if sc["mode"] != "shm" or k == "exit":
                        while self.due:
                            self.one()
                    if k == "exit":
                        self.send(self.pad("EXIT"))
                    elif k == "cut":
                        m = self.pad(self.rng.choice(["STATUS", "INIT", "GETFORCE"]))[: self.rng.randint(1, 11)]
                        if self.rng.random() < 0.5 and last and sc["mode"] != "shm":
                            m = self.m_pos(last)
                            m = m[: self.rng.randint(12, len(m) - 1)]
                        self.c.sendall(m)
                    self.ev.append(dict(e=k))
                    if k != "exit":
                        self.c.close()
                    self.ev.append(dict(e="left" if self.wait(15) else "stayed"))
        except (Stall, ConnectionError) as e:
            self.ev.append(dict(e="stall", why=str(e)))
        finally:
            self.stop()
        return self.ev


def reference(arg):
    """results of a driver process that has seen nothing but this structure"""
    sc, s = arg
    L = Lab(dict(sc, ops=[], mode="unix", batch=1, frag=0))
    rng = np.random.RandomState(sc["seed"] % 2**31)
    L.st = structures(rng, sc["pes"], sc["nat"], sc["ns"])
    L.start()
    L.c.sendall(L.m_pos([s]) + L.pad("GETFORCE"))
    pot, force, vir, ex = L.read_force()
    L.c.sendall(L.pad("EXIT"))
    L.stop()
    return (pot[0], force[0].copy(), vir[0].copy(), ex[0])


def session(sc):
    try:
        if analytic(sc["pes"], np.zeros((1, 3)), np.eye(3)) is None:
            sc = dict(sc, ref=[reference((sc, s + 1)) for s in range(sc["ns"])])
    except Stall as e:
        return [dict(need=sc["need"], push=False), dict(e="stall", why="reference: " + str(e))]
    return Lab(sc).run()
