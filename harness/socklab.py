"""Worker: runs scenarios of the real socket server with scripted clients and
prints, per scenario, the recorded trace.  Runs in its own process."""

import fcntl
import json
import os
import shutil
import socket
import struct
import sys
import tempfile
import threading
import time

import numpy as np

HDR = 12


def pad(s):
    return s.ljust(HDR).encode()


class Dead(Exception):
    pass


class Log:
    def __init__(self):
        self.lock = threading.RLock()
        self.ev = []

    def __call__(self, e, **k):
        with self.lock:
            self.ev.append(dict(e=e, **k))


class Lab:
    def __init__(self, sc):
        self.sc = sc
        self.log = Log()
        self.stop = threading.Event()
        self.nconn = 0
        self.struct = {}  # request number -> (pos, h, ih)
        self.nreq = 0
        self.dir = tempfile.mkdtemp(prefix="vs_")
        self.threads = []
        self.laberr = []
        self.go = [threading.Event() for _ in sc.get("clients", [])]

    def newconn(self):
        with self.log.lock:
            self.nconn += 1
            return self.nconn

    # --------------------------------------------------------------- set up
    def start(self):
        from ipi.interfaces import sockets as S
        from ipi.engine.forcefields import FFSocket

        for k, v in dict(SERVERTIMEOUT=0.02, TIMEOUT=0.3, NTIMEOUT=4, SELECTTIMEOUT=20).items():
            if hasattr(S, k):
                setattr(S, k, v)
        sc = self.sc
        self.port = 31415
        self.address = "lab"
        if sc["mode"] == "inet":
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.address = "127.0.0.1"
        self.interface = S.InterfaceSocket(
            address=self.address,
            port=self.port,
            slots=8,
            mode=sc["mode"],
            timeout=sc.get("timeout", 0.0),
            match_mode=sc.get("match", "auto"),
            sockets_prefix=self.dir + "/s_",
            consolidate_messages=sc["consolidate"],
            batch_size=sc.get("batch", 1),
        )
        self.pars = {"alpha": "1.5", "name": "lj"} if sc.get("pars", True) else {}
        self.ff = FFSocket(
            latency=1e-4,
            offset=sc.get("offset", 0.0),
            name="lab",
            pars=self.pars,
            dopbc=sc.get("pbc", False),
            active=np.array(sc.get("active") or [-1]),
            interface=self.interface,
        )
        self.shm0 = set(os.listdir("/dev/shm"))
        if not sc.get("manual"):
            self.ff.start()
        else:
            self.interface.open()

    def parstring(self):
        s = " "
        for k, v in self.pars.items():
            s += k + " : " + str(v) + " , "
        b = self.sc.get("batch", 1)
        return s, b

    def structure(self, r):
        nat = self.sc["nat"]
        pos = np.arange(3 * nat) * 0.125 + r
        h = np.array([[50.0 + r, 1.0, 2.0], [0.0, 60.0 + r, 3.0], [0.0, 0.0, 70.0 + r]])
        if self.sc.get("pbc"):
            pos = pos - 40.0 + 100.0 * r
        return pos, h

    def submit(self, rid):
        from ipi.engine.atoms import Atoms
        from ipi.engine.cell import Cell

        self.nreq += 1
        r = self.nreq
        pos, h = self.structure(r)
        at = Atoms(self.sc["nat"])
        at.q = pos
        cell = Cell(h)
        ih = np.linalg.inv(h)
        exp = pos.copy()
        if self.sc.get("pbc"):
            s = exp.reshape(-1, 3) @ ih.T
            exp = ((s - np.round(s)) @ h.T).reshape(-1)
        self.struct[r] = (exp, h, ih)
        self.log("submit", r=r, id=rid)
        rq = self.ff.queue(at, cell, reqid=rid)
        return r, rq

    # ---------------------------------------------------- checking results
    def compute(self, c, k, r, xk):
        """What client c answers as its k-th answer for request r."""
        nat = self.sc["nat"] if not self.sc.get("active") else len(self.sc["active"])
        pot = r * 1e6 + c * 1e3 + k
        f = (np.arange(3 * nat) + 1) * 0.5 + r * 100 + c * 10000 + k * 1000000
        v = np.arange(9).reshape(3, 3) * 0.25 + r + 100 * c + 10000 * k
        if xk == "none":
            x = ""
        elif xk == "text":
            x = "plain r=%d c=%d k=%d" % (r, c, k)
        elif xk == "utf8":
            x = json.dumps({"r": r, "c": c, "k": k, "u": "\u00e9\u4e2d"}, ensure_ascii=False)
        elif xk == "long":
            x = json.dumps({"r": r, "c": c, "k": k, "pad": [c] * 4000})
        else:
            x = json.dumps({"r": r, "c": c, "k": k})
        return pot, f, v, x

    def check(self, r, res, xks):
        """Decodes a result; returns (tag, c, k, ok, why)."""
        try:
            pot = res[0] + self.sc.get("offset", 0.0)
            tag = int(round(pot // 1e6))
            c = int(round((pot % 1e6) // 1e3))
            k = int(round(pot % 1e3))
            p, f, v, x = self.compute(c, k, tag, xks.get(c, "json"))
            nat = self.sc["nat"]
            full = np.zeros(3 * nat)
            act = self.sc.get("active")
            if act:
                for n, a in enumerate(act):
                    full[3 * a : 3 * a + 3] = f[3 * n : 3 * n + 3]
            else:
                full = f
            why = ""
            if abs(pot - p) > 1e-6:
                why = "energy"
            elif np.shape(res[1]) != full.shape or not np.array_equal(np.asarray(res[1]), full):
                why = "forces"
            elif np.shape(res[2]) != (3, 3) or not np.array_equal(np.asarray(res[2]), v):
                why = "virial"
            else:
                exp = {}
                if x:
                    try:
                        exp = json.loads(x)
                    except Exception:
                        exp = {}
                    exp["raw"] = x
                if res[3] != exp:
                    why = "extras"
            return tag, c, k, why == "", why
        except Exception as e:
            return 0, 0, 0, False, "undecodable result: %r" % (e,)

    # ---------------------------------------------------------------- client
    def client(self, i, spec):
        if spec.get("wait"):
            self.go[i].wait(30)
        time.sleep(spec.get("delay", 0.0))
        nth = 0
        while not self.stop.is_set():
            c = self.newconn()
            if c > self.sc["maxconn"]:
                return
            self.xk[c] = spec.get("extra", "json")
            self.cid[c] = i
            try:
                again = Conn(self, c, spec, nth).run()
            except Exception:
                import traceback

                self.laberr.append(traceback.format_exc())
                return
            nth += 1
            if not again or not spec.get("reconnect", True) or self.stop.is_set():
                return
            time.sleep(0.005)

    def run(self):
        sc = self.sc
        self.xk, self.cid = {}, {}
        stuck = []
        self.start()
        try:
            for i, spec in enumerate(sc["clients"]):
                t = threading.Thread(target=self.client, args=(i, spec), daemon=True)
                self.threads.append(t)
                t.start()
            for ph, phase in enumerate(sc["requests"]):
                rqs = []
                time.sleep(sc.get("lead", 0.0))
                for rid in phase:
                    rqs.append(self.submit(rid))
                for i, spec in enumerate(sc["clients"]):
                    if spec.get("wait", 0) == ph + 1:
                        self.go[i].set()
                if sc.get("early_stop") is not None and ph == len(sc["requests"]) - 1:
                    time.sleep(sc["early_stop"])
                    break
                deadline = time.time() + sc.get("deadline", 12)
                for r, rq in rqs:
                    ok = rq._event_done.wait(max(0.05, deadline - time.time()))
                    # observed as users do: the status field tells completion
                    t1 = time.time() + 2
                    while ok and rq["status"] != "Done" and time.time() < t1:
                        time.sleep(0.001)
                    if rq["status"] == "Done" and rq["result"] is not None:
                        tag, c, k, good, why = self.check(r, rq["result"], self.xk)
                        self.log("done", r=r, tag=tag, c=c, k=k, ok=good, why=why)
                        self.ff.release(rq)
                    else:
                        stuck.append((r, rq["status"]))
                if stuck:
                    break
        finally:
            self.log("stop")
            self.stop.set()
            for g in self.go:
                g.set()
            if stuck:
                th = self.ff._thread
                return {"trace": self.log.ev, "stuck": stuck, "laberr": self.laberr, "poll_alive": bool(th and th.is_alive()), "rep": self.rep()}
            t = threading.Thread(target=self.ff.stop, daemon=True)
            t.start()
            t.join(20)
            hung = t.is_alive()
            for t in self.threads:
                t.join(10)
            time.sleep(0.0)
            import gc

            gc.collect()
            left = [
                f
                for f in set(os.listdir("/dev/shm")) - self.shm0
                if f.startswith("ipi_shm_%d_" % os.getpid())
            ]
            self.log(
                "closed",
                sockgone=not os.path.exists(self.dir + "/s_lab"),
                shmgone=not left,
                left=left,
            )
            for f in left:
                try:
                    os.unlink("/dev/shm/" + f)
                except OSError:
                    pass
            self.log("end")
            shutil.rmtree(self.dir, ignore_errors=True)
        return {
            "trace": self.log.ev,
            "stuck": [],
            "laberr": self.laberr,
            "hung": hung,
            "alive": [t.is_alive() for t in self.threads],
            "rep": self.rep(),
        }

    def rep(self):
        return [x for ph in self.sc["requests"] for x in ph]


class Conn:
    """One connection of a scripted client."""

    def __init__(self, lab, c, spec, nth):
        self.lab, self.c, self.spec, self.nth = lab, c, spec, nth
        self.log = lab.log
        self.count = {}
        self.faults = [f for f in spec.get("faults", []) if f.get("conn", 0) == nth]
        self.have = None
        self.k = 0
        self.inited = spec.get("init", "no") == "no"
        self.batch = lab.sc.get("batch", 1)
        self.shm = None
        self.t_pos = time.time()

    def open(self):
        sc = self.lab.sc
        self.log("conn", c=self.c)
        t0 = time.time()
        while True:
            try:
                if sc["mode"] == "inet":
                    s = socket.create_connection(("127.0.0.1", self.lab.port))
                    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                else:
                    s = socket.socket(socket.AF_UNIX)
                    s.connect(self.lab.dir + "/s_lab")
                # the clients live in this process but must not interfere with
                # the numbering of the server's file descriptors
                fd = fcntl.fcntl(s.fileno(), fcntl.F_DUPFD, 600)
                s2 = socket.socket(s.family, s.type, s.proto, fileno=fd)
                s.close()
                s2.settimeout(60)
                self.s = s2
                return
            except OSError:
                if self.lab.stop.is_set() or time.time() - t0 > 20:
                    raise EOFError
                time.sleep(0.002)

    def exact(self, n):
        b = b""
        while len(b) < n:
            try:
                x = self.s.recv(n - len(b))
            except (ConnectionError, OSError):
                raise EOFError
            if not x:
                raise EOFError
            b += x
        return b

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            pass  # noticed at the next read

    def trigger(self, point, sender=None):
        n = self.count[point] = self.count.get(point, 0) + 1
        for f in self.faults:
            if f["at"] == point and f.get("n", 1) == n:
                if f["kind"] == "hang":
                    if sender:
                        sender(f)
                    self.hang()
                else:
                    if sender:
                        sender(f)
                    self.log("die", c=self.c)
                    if f["kind"] == "reset" and self.lab.sc["mode"] == "inet":
                        self.s.setsockopt(
                            socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)
                        )
                    self.s.close()
                raise Dead
        if point in self.spec.get("slow", {}):
            if point == "posdata_part":
                self.log("stall", c=self.c)
            time.sleep(self.spec["slow"][point])

    def hang(self):
        """Stops computing, but still sees what the server sends."""
        try:
            while True:
                h = self.exact(HDR)
                if h == pad("EXIT"):
                    self.exit()
                else:
                    self.log("rx" + h.decode(errors="replace").strip(), c=self.c)
        except EOFError:
            self.log("eof", c=self.c)
            self.s.close()

    def exit(self):
        early = False
        to = self.lab.sc.get("timeout", 0.0)
        if not self.lab.stop.is_set() and to > 0 and self.have is not None:
            early = time.time() - self.t_pos < 0.5 * to
        self.log("rxEXIT", c=self.c, ok=not early)

    def run(self):
        """True if the client should come back."""
        try:
            self.open()
        except EOFError:
            self.log("eof", c=self.c)
            return False
        try:
            self.trigger("connect")
            while True:
                h = self.exact(HDR)
                m = h.decode(errors="replace").strip()
                if m == "STATUS":
                    self.log("rxSTATUS", c=self.c)
                    self.trigger("status")
                    s = "HAVEDATA" if self.have is not None else ("READY" if self.inited else "NEEDINIT")
                    self.log("txSTATUS", c=self.c, s=s)
                    self.send(pad(s))
                    self.trigger("tx" + s)
                elif m == "INIT":
                    rid, n = struct.unpack("ii", self.exact(8))
                    ps = self.exact(n).decode() if n else ""
                    exp, b = self.lab.parstring()
                    ok = ps == exp
                    if b > 1:
                        ok = ps.startswith(exp) and ps[len(exp):].strip(" ,") == "batch_size:%d" % b
                    self.log("rxINIT", c=self.c, id=rid, ok=ok, pars=ps)
                    self.inited = True
                    self.trigger("init")
                elif m == "POSDATA":
                    self.trigger("posdata_part")
                    b, ok, why = self.readpos()
                    self.t_pos = time.time()
                    self.log("rxPOSDATA", c=self.c, b=b, ok=ok, why=why)
                    self.have = b
                    self.trigger("posdata")
                elif m == "GETFORCE":
                    self.log("rxGETFORCE", c=self.c)
                    time.sleep(self.spec.get("compute", 0.0))
                    self.trigger("getforce")
                    self.answer()
                elif m == "EXIT":
                    self.exit()
                else:
                    self.log("rx?" + m, c=self.c)
        except Dead:
            return True
        except EOFError:
            self.log("eof", c=self.c)
            self.s.close()
            return True

    # ----------------------------------------------------------- structures
    def identify(self, pos, h, ih):
        """Which request's structure is this, exactly?"""
        act = self.lab.sc.get("active")
        for r, (p, hh, ii) in list(self.lab.struct.items()):
            if act:
                p = np.concatenate([p[3 * a : 3 * a + 3] for a in act])
            if p.shape == pos.shape and (np.allclose(p, pos, rtol=0, atol=1e-9) if self.lab.sc.get("pbc") else np.array_equal(p, pos)):
                if not np.array_equal(h, hh):
                    return r, False, "cell"
                if not np.allclose(ih, ii, rtol=1e-12, atol=1e-14):
                    return r, False, "inverse cell"
                return r, True, ""
        return 0, False, "unknown positions %s" % (pos[:3],)

    def readpos(self):
        nb = self.batch
        sc = self.lab.sc
        if sc["mode"] == "shm":
            (nat,) = struct.unpack("i", self.exact(4))
            if self.shm is None:
                import mmap

                self.shm = {}
                names = {}
                for kind in ("pos", "h", "ih", "pot", "force", "vir"):
                    (n,) = struct.unpack("i", self.exact(4))
                    names[kind] = self.exact(n).decode()
                time.sleep(self.spec.get("attach", 0.0))
                shapes = dict(pos=(nb, 3 * nat), h=(nb, 3, 3), ih=(nb, 3, 3), pot=(nb,), force=(nb, 3 * nat), vir=(nb, 3, 3))
                for kind, nm in names.items():
                    try:
                        fd = os.open("/dev/shm/" + nm.lstrip("/"), os.O_RDWR)
                        mm = mmap.mmap(fd, 0)
                        os.close(fd)
                        self.shm[kind] = np.ndarray(shapes[kind], dtype=float, buffer=mm)
                    except (OSError, TypeError, ValueError) as e:
                        self.shm = None
                        return [0] * nb, False, "shared memory segment %s: %r" % (nm, e)
            cells = [(self.shm["h"][i].copy(), self.shm["ih"][i].copy()) for i in range(nb)]
            poss = [self.shm["pos"][i].copy() for i in range(nb)]
        elif nb > 1:
            (nat,) = struct.unpack("i", self.exact(4))
            cells = []
            for i in range(nb):
                x = np.frombuffer(self.exact(144), float).reshape(2, 3, 3)
                cells.append((x[0], x[1]))
            poss = [np.frombuffer(self.exact(24 * nat), float) for i in range(nb)]
        else:
            x = np.frombuffer(self.exact(144), float).reshape(2, 3, 3)
            cells = [(x[0], x[1])]
            (nat,) = struct.unpack("i", self.exact(4))
            if nat < 0 or nat > 1000000:
                return [0], False, "atom count %d" % nat
            poss = [np.frombuffer(self.exact(24 * nat), float)]
        b, ok, why = [], True, ""
        for (h, ih), p in zip(cells, poss):
            r, o, w = self.identify(p, h, ih)
            b.append(r)
            ok = ok and o
            why = why or w
        return b, ok, why

    def answer(self):
        sc = self.lab.sc
        self.k += 1
        b = self.have if self.have is not None else [0]
        res = [self.lab.compute(self.c, self.k, r, self.spec.get("extra", "json")) for r in b]
        nat = len(res[0][1]) // 3
        xs = [x[3].encode() for x in res]
        if sc["mode"] == "shm":
            if self.shm is not None:
                for i, (p, f, v, x) in enumerate(res):
                    self.shm["pot"][i] = p
                    self.shm["force"][i] = f
                    self.shm["vir"][i] = v
            body = pad("FORCEREADY")
        else:
            body = pad("FORCEREADY") + np.array([x[0] for x in res]).tobytes()
            body += struct.pack("i", nat)
            body += b"".join(x[1].tobytes() for x in res)
            body += b"".join(x[2].tobytes() for x in res)
        fixed = len(body)
        for x in xs:
            body += struct.pack("i", len(x)) + x

        def partial(f):
            w = f.get("frac", 0.5)
            n = max(1, min(len(body) - 1, int(w * len(body)))) if w < 1 else len(body) - int(w)
            if f.get("edge") == "header":
                n = 12 if len(body) > 12 else 6
            elif f.get("edge") == "fixed":
                n = fixed
            elif f.get("edge") == "extra_len":
                n = fixed + 4
            elif f.get("edge") == "extra_mid":
                n = fixed + 4 + max(1, len(xs[0]) // 2)
            n = min(n, len(body) - 1)
            self.log("part", c=self.c)
            self.send(body[:n])

        self.trigger("reply_part", partial)
        self.log("txFORCE", c=self.c, k=self.k)
        self.have = None
        if self.spec.get("init") == "always":
            self.inited = False
        # some clients deliver their answer in pieces
        ch = self.spec.get("chunks", 0)
        if ch:
            # (headers travel in one piece, as with any real client)
            self.send(body[:12])
            body = body[12:]
            step = max(1, len(body) // ch)
            for i in range(0, len(body), step):
                time.sleep(0.002)
                self.send(body[i : i + step])
        else:
            self.send(body)
        self.trigger("replied")


def main():
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    scs = json.loads(sys.stdin.read())
    real = os.dup(1)
    os.dup2(2, 1)
    for i, sc in scs:
        t0 = time.time()
        r = Lab(sc).run()
        r["wall"] = time.time() - t0
        os.write(real, ("@@R " + json.dumps([i, r]) + "\n").encode())
        if r["stuck"] or r.get("hung"):
            break
    os._exit(0)


if __name__ == "__main__":
    main()
