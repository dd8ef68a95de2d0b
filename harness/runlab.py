"""Laboratory for whole simulations: movers are replaced by counters, exits are
requested at chosen points, files are read back after every life."""

import contextlib
import io
import json
import os
import random
import re
import signal
import sys
import threading
import time
import xml.etree.ElementTree as ET

BEADWISE = ("positions", "forces", "velocities", "momenta", "extras")
M = 1837.0
K = 0.5  # spring constant of the potential used


def xml(cfg, step0=0):
    """input of a simulation; cfg: nsys, movers, sm, nbeads, threads, total, safe, outs"""
    nb = cfg["nbeads"]
    out = ""
    for j, t in enumerate(cfg["templates"]):
        if t["kind"] == "prop":
            out += "<properties stride='%d' filename='p%d' flush='%d'>[step, atom_x(0;0), atom_x(1;0), potential, cell_h, atom_v(0;0), atom_p(1;0)]</properties>" % (t["stride"], j, t.get("flush", 1))
        elif t["kind"] == "traj":
            out += "<trajectory stride='%d' filename='t%d' flush='%d' format='%s' bead='%d'>%s</trajectory>" % (t["stride"], j, t.get("flush", 1), t["format"], t["bead"], t["what"])
        else:
            out += "<checkpoint stride='%d' filename='c%d' overwrite='%s'/>" % (t["stride"], j, t["overwrite"])
    s = "<simulation verbosity='quiet' threading='%s' safe_stride='%d' floatformat='%%20.12e'><output prefix='%s'>%s</output><total_steps>%d</total_steps>" % (cfg["threads"], cfg["safe"], cfg.get("prefix", "sim"), out, cfg["total"])
    s += "<prng><seed>31</seed></prng><ffdirect name='h'><pes>harmonic</pes><parameters>{k1: %s}</parameters></ffdirect>" % K
    if cfg["sm"] == 1:
        s += "<smotion mode='dummy'/>"
    elif cfg["sm"] == 2:
        s += "<smotion mode='multi'><smotion mode='dummy'/><smotion mode='dummy'/></smotion>"
    for i in range(cfg["nsys"]):
        q = []
        for b in range(nb):
            q += [1000.0 * b + 100.0 * (i + 1) if k < 6 else 0.0 for k in range(6)]
        n = cfg["movers"][i]
        ms = ["<motion mode='dummy'/>"] * n
        if cfg.get("dts"):
            ms = ["<motion mode='dynamics'><fixcom> False </fixcom><dynamics mode='nve'><timestep>%d</timestep></dynamics></motion>" % cfg["dts"][i][k] for k in range(n)]
        m = ms[0]
        if n > 1 or cfg.get("multi1"):
            m = "<motion mode='multi'>" + "".join(ms) + "</motion>"
        s += "<system prefix='s%d'><beads natoms='2' nbeads='%d'><q shape='(%d,6)'>%s</q><m>[1837.0,1837.0]</m><names>[H,H]</names></beads><cell shape='(3,3)'>[50,0,0,0,50,0,0,0,50]</cell><forces><force forcefield='h'/></forces><ensemble><temperature units='kelvin'>300</temperature></ensemble>%s</system>" % (i, nb, nb, [float(x) for x in q], m)
    return s + "</simulation>"


def decode(cfg, s, b, q):
    """numbers of actions of each mover from six coordinates"""
    off = 1000.0 * b + 100.0 * (s + 1)
    v = [x - off for x in q]
    if any(abs(x - round(x)) > 1e-4 for x in v):
        return [-999] + [int(round(x)) for x in v]
    v = [int(round(x)) for x in v]
    n = cfg["movers"][s]
    r = v[:n] + v[3 : 3 + cfg["sm"]]
    if any(v[n:3]) or any(v[3 + cfg["sm"] :]):
        return [-998] + v
    return r


def snapshot(cfg, fn):
    try:
        return snapshot_(cfg, fn)
    except Exception as e:
        return dict(step=-9, st=[[-989]])


def snapshot_(cfg, fn):
    r = ET.parse(fn).getroot()
    e = r.find("step")
    st = []
    for i, s in enumerate(r.findall("system")):
        q = [float(x) for x in s.find("beads").find("q").text.strip().strip("[]").replace("\n", " ").split(",")]
        nb = cfg["nbeads"]
        p = [float(x) for x in s.find("beads").find("p").text.strip().strip("[]").replace("\n", " ").split(",")]
        d = [decode(cfg, i, b, q[6 * b : 6 * b + 6]) for b in range(nb)]
        d += [decode(cfg, i, b, [x / M + 1000.0 * b + 100.0 * (i + 1) for x in p[6 * b : 6 * b + 6]]) for b in range(nb)]
        st.append(d[0] if all(x == d[0] for x in d) else [-997])
    return dict(step=int(e.text) if e is not None else 0, st=st)


def outputs_of(cfg):
    """the outputs a simulation has, in the order they are written: (template, system or None)"""
    r = []
    for j, t in enumerate(cfg["templates"]):
        if t["kind"] == "chk":
            r.append((j, t, None))
        else:
            r += [(j, t, i) for i in range(cfg["nsys"])]
    return r


def files_of(cfg, j, t, i):
    p = cfg.get("prefix", "sim")
    d, f = os.path.split(p)
    if t["kind"] == "chk":
        return [(p + "." if p else "") + "c%d" % j]
    base = "s%d_%s" % (i, (p + "." if p else "") + "%s%d" % (t["kind"][0], j))
    if t["kind"] == "prop":
        return [base]
    ext = "" if t["what"].startswith("extras") else "." + t["format"]
    if t["what"] in BEADWISE:
        nd = int(1 + __import__("math").floor(__import__("math").log(cfg["nbeads"]) / __import__("math").log(10)))
        bs = [b for b in range(cfg["nbeads"]) if (t["bead"] < 0 and b % (-t["bead"]) == 0) or t["bead"] == b]
        return [base + "_" + str(b).zfill(nd) + ext for b in bs]
    return [base + ext]


def parse_prop(cfg, i, text):
    out = []
    for line in text.splitlines():
        if line.startswith("#") or not line.strip():
            continue
        x = [float(v) for v in line.split()]
        if len(x) != 20:
            out.append((-7, [-996, len(x)]))
            continue
        v = decode(cfg, i, 0, x[1:7])
        # the potential of this state, averaged over the beads
        if v and v[0] >= 0:
            d = [x[1 + k] - 100.0 * (i + 1) for k in range(6)]
            pot = sum(0.5 * K * sum((1000.0 * b + 100.0 * (i + 1) + y) ** 2 for y in d) for b in range(cfg["nbeads"])) / cfg["nbeads"]
            if abs(pot - x[7]) > 1e-8 * abs(pot) or x[8:14] != [50.0, 50.0, 50.0, 0.0, 0.0, 0.0]:
                v = [-995, int(pot), int(x[7])]
            if any(abs(a - b) > 1e-8 * (1 + abs(a)) for a, b in zip(d[:3] + [M * y for y in d[3:]], x[14:])):
                v = [-988] + [int(y) for y in x[14:]]
        out.append((int(x[0]), v))
    return out


def parse_traj(cfg, i, t, fn, text):
    out = []
    m = re.search(r"_(\d+)(?:\.\w+)?$", os.path.basename(fn)) if t["what"] in BEADWISE else None
    bead = int(m.group(1)) if m else 0
    L = text.splitlines()
    if t["what"] == "extras":
        for a in range(0, len(L), 2):
            s = re.search(r"Step:\s+(-?\d+)", L[a])
            out.append((int(s.group(1)), None if a + 1 < len(L) and "nada" in L[a + 1] else [-994]))
        return out
    if t["format"] == "xyz":
        n = 4
        if len(L) % n:
            return [(-7, [-993, len(L)])]
        for a in range(0, len(L), n):
            s = re.search(r"Step:\s+(-?\d+)\s+Bead:\s+(\d+)", L[a + 1])
            x = [float(y) for line in L[a + 2 : a + 4] for y in line.split()[1:4]]
            lab = int(s.group(1))
            if t["what"] in BEADWISE and int(s.group(2)) != bead:
                lab = -8
            out.append((lab, conv(cfg, i, t, bead, x)))
    else:  # pdb
        for blk in text.split("END")[:-1]:
            s = re.search(r"Step:\s+(-?\d+)\s+Bead:\s+(\d+)", blk)
            x = []
            for line in blk.splitlines():
                if line.startswith("ATOM"):
                    x += [float(y) / 0.529177210903 for y in (line[30:38], line[38:46], line[46:54])]
            lab = int(s.group(1))
            if t["what"] in BEADWISE and int(s.group(2)) != bead:
                lab = -8
            out.append((lab, conv(cfg, i, t, bead, x)))
    return out


def conv(cfg, i, t, b, x):
    nb = cfg["nbeads"]
    if t["what"] in ("forces", "f_centroid"):
        x = [-y / K for y in x]
    if t["what"] in ("x_centroid", "f_centroid"):
        x = [y - 1000.0 * (nb - 1) / 2 for y in x]
    if t["what"] in ("momenta", "p_centroid"):
        x = [y / M for y in x]
    if t["what"].endswith("_centroid"):
        b = 0
    if t["what"] in ("momenta", "p_centroid", "velocities", "v_centroid"):
        x = [y + 1000.0 * b + 100.0 * (i + 1) for y in x]
    # trajectories print few digits: accept what rounds to a state
    off = 1000.0 * b + 100.0 * (i + 1)
    tol = 0.02
    y = []
    for v in x:
        d = v - off
        if abs(d - round(d)) > tol:
            return [-992, int(round(d))]
        y.append(off + round(d))
    return decode(cfg, i, b, y)


def records(cfg, k, text_of):
    """records of output k: list of (label, state of the system)"""
    j, t, i = outputs_of(cfg)[k]
    if t["kind"] == "chk":
        return []
    r = []
    for fn in files_of(cfg, j, t, i):
        tx = text_of(fn)
        r.append(parse_prop(cfg, i, tx) if t["kind"] == "prop" else parse_traj(cfg, i, t, fn, tx))
    if any(len(x) != len(r[0]) or any(a != b for a, b in zip(x, r[0])) for x in r):
        return [(-6, [-991] + [len(x) for x in r])]
    return r[0]


class Lab:
    def __init__(self, cfg, plan):
        self.cfg, self.plan = cfg, plan
        self.log, self.lock = [], threading.RLock()
        self.n = 0
        self.names = []
        self.gate = threading.Event()
        self.gate.set()
        self.reached = threading.Event()
        self.T = None
        self.where = 0
        self.fired = None
        self.late = None
        self.dead = False

    def ev(self, **k):
        with self.lock:
            if not self.dead:
                self.log.append(k)

    # -- points at which an exit can be requested
    def point(self, name):
        from ipi.utils.softexit import softexit

        with self.lock:
            i = self.n
            self.n += 1
            self.names.append(name)
        p = self.plan
        if self.late is not None and i >= self.late:
            self.late = None
            self.gate.set()
            if self.T is not None:
                self.T.join(0.4)
        if not p.get("how") or self.fired is not None or i < p["at"]:
            return
        if p["how"] == "step":
            if name.startswith("move") and self.sim.step >= p["step"] - 1 and not os.path.exists("EXIT"):
                self.fired = (i, name)
                open("EXIT", "w").close()
            return
        if p.get("only") and not any(name.startswith(x) for x in p["only"]):
            return
        if p.get("not") and any(name.startswith(x) for x in p["not"]):
            return
        self.fired = (i, name)
        if p["how"] == "main":
            softexit.trigger(status="restartable", message="lab")
        elif p["how"] == "signal":
            os.kill(os.getpid(), signal.SIGTERM)
        elif p["how"] == "thread":
            if p.get("delay") is not None:
                self.gate.clear()
                self.late = i + p["delay"]
            self.T = threading.Thread(target=self.request, daemon=True)
            self.T.start()
            self.reached.wait(5)
            if p.get("delay") is None:
                self.T.join(0.4)
            if p.get("again"):
                os.kill(os.getpid(), signal.SIGTERM)
        elif p["how"] == "exitfile":
            open("EXIT", "w").close()
        elif p["how"] == "time":
            self.sim.ttime = 1e-9
        elif p["how"] == "kill":
            self.flush_kill()

    def request(self):
        from ipi.utils.softexit import softexit

        with contextlib.suppress(SystemExit):
            softexit.trigger(status="restartable", message="lab")

    def first_handler(self):
        self.ev(e="request")
        self.reached.set()
        if self.plan.get("how") == "signal" and self.plan.get("again"):
            os.kill(os.getpid(), signal.SIGTERM)
            for _ in range(100):  # the handler runs in the main thread, between two instructions
                time.sleep(0)
        self.gate.wait(10)

    def last_handler(self):
        self.ev(e="restart", b=snapshot(self.cfg, "RESTART"))

    # -- instrumentation of a simulation through its public objects
    def instrument(self, sim):
        from ipi.utils.softexit import softexit
        from ipi.utils.depend import dstrip

        cfg = self.cfg
        self.sim = sim
        for i, s in enumerate(sim.syslist):
            ms = s.motion.mlist if hasattr(s.motion, "mlist") else [s.motion]
            for m, mot in enumerate(ms):
                self.mover(i, m, s, mot)
        sm = sim.smotion
        if cfg["sm"]:
            for k, x in enumerate(sm.mlist if hasattr(sm, "mlist") else [sm]):
                self.smover(k, x)
        olist = outputs_of(cfg)
        assert len(olist) == len(sim.outputs), (len(olist), len(sim.outputs))
        self.size = {}
        for k, o in enumerate(sim.outputs):
            self.output(k, o)
        for s in sim.syslist:
            self.prop(s.properties.property_dict["potential"])
        orig = sim.chk.status.store

        def store(x):
            self.point("store-a")
            orig(x)
            self.point("store-b")

        sim.chk.status.store = store
        softexit.flist.insert(0, (self.first_handler, (), {}))
        softexit.register_function(self.last_handler)

    def prop(self, p):
        f = p["func"]

        def func(*a):
            r = f(*a)
            self.point("prop")  # in the middle of a line of output
            return r

        p["func"] = func

    def mover(self, i, m, s, mot):
        def dt():
            """time step of this motion, and of all the motion of the system"""
            return dict(dt=[int(round(float(mot.dt))), int(round(float(s.motion.dt)))]) if self.cfg.get("dts") else {}

        def step(step=None):
            self.point("move-a")
            with self.lock:
                self.ev(e="move", s=i + 1, m=m + 1, step=step, **dt())
                s.beads.q[:, m] += 1.0
                s.beads.p[:, m] += M
                if [i + 1, m + 1, step] in self.cfg["fin"]:
                    mot.finish("success", "done")
            self.point("move-b")

        mot.step = step

    def smover(self, k, x):
        def step(step=None):
            self.point("smove-a")
            with self.lock:
                self.ev(e="smove", k=k + 1, step=step)
                for s in self.sim.syslist:
                    s.beads.q[:, 3 + k] += 1.0
                    s.beads.p[:, 3 + k] += M
            self.point("smove-b")

        x.step = step

    def tail(self, fn):
        try:
            with open(fn) as f:
                tx = f.read()
        except OSError:
            return ""
        a = self.size.get(fn, 0)
        self.size[fn] = len(tx)
        return tx[a:]

    def output(self, k, o):
        cfg = self.cfg
        j, t, i = outputs_of(cfg)[k]
        for fn in files_of(cfg, j, t, i) if t["kind"] != "chk" else []:
            self.tail(fn)
        orig = o.write

        def write():
            self.point("out-a")
            before = set(os.listdir(os.path.dirname(o.filename) or ".")) if t["kind"] == "chk" else None
            num = o.step if t["kind"] == "chk" else None
            orig()
            if t["kind"] == "chk":
                if o.step != num:
                    fn = o.filename if t["overwrite"] else o.filename + "_%d" % num
                    b = snapshot(cfg, fn)
                    self.ev(e="rec", o=k + 1, l=b["step"], v=b)
            else:
                if o.out is not None:
                    for f in o.out if isinstance(o.out, list) else [o.out]:
                        if f is not None and not f.closed:
                            f.flush()
                with self.lock:
                    for l, v in records(cfg, k, self.tail):
                        if t["kind"] == "traj" and t["what"] == "extras":
                            v = self.extras_value(i, l, v)
                        self.ev(e="rec", o=k + 1, l=l, v=dict(step=l, st=[v]))
            self.point("out-b")

        o.write = write

    def extras_value(self, i, l, v):
        """extras carry no state: take that of the system, if the text is right"""
        from ipi.utils.depend import dstrip

        if v is not None:
            return v
        return decode(self.cfg, i, 0, list(dstrip(self.sim.syslist[i].beads.q)[0]))


def life(arg):
    """one process: start from an input or from RESTART, run, end.  Returns its events."""
    cfg, src, plan, seq = arg
    from ipi.engine.simulation import Simulation
    from ipi.utils.softexit import softexit
    from ipi.utils.messages import verbosity

    import ipi.utils.softexit as sx

    # the monitoring thread must not be what notices the EXIT file; it is played by the laboratory
    sx.SOFTEXITLATENCY = 1.0 if plan.get("how") in ("exitfile", "step") else 0.02
    signal.signal(signal.SIGTERM, lambda *a: None)
    verbosity.level = "quiet"
    lab = Lab(cfg, plan)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    if os.path.exists("EXIT"):
        os.remove("EXIT")
    try:
        if plan.get("chunks"):
            from ipi.scripting.interactive import InteractiveSimulation

            sim = InteractiveSimulation(xml(cfg) if src is None else open(src))
        else:
            sim = Simulation.load_from_xml(xml(cfg) if src is None else open(src))
    except ValueError as e:
        if "already run" in str(e):
            return dict(log=[dict(e="refused")], names=[], fired=None)
        raise
    if src is not None:
        st = []
        from ipi.utils.depend import dstrip

        for i, s in enumerate(sim.syslist):
            d = [decode(cfg, i, b, list(dstrip(s.beads.q)[b])) for b in range(cfg["nbeads"])]
            st.append(d[0] if all(x == d[0] for x in d) else [-997])
        lab.ev(e="resume", step=int(sim.step), st=st)
    lab.instrument(sim)
    err = None
    try:
        if not plan.get("chunks"):
            sim.run()
            if lab.fired and plan["how"] in ("exitfile", "time", "step") and not softexit.triggered and not sim.finished and sim.step + 1 < cfg["total"]:
                lab.ev(e="asked")
        else:
            for c in plan["chunks"]:
                sim.run(c)
                if softexit.triggered:
                    break
                lab.ev(e="paused", step=int(sim.step), b=snapshot(cfg, "RESTART"))
            if lab.fired and plan["how"] == "exitfile" and not softexit.triggered and not sim.finished and sim.step < cfg["total"]:
                lab.ev(e="asked")
        lab.ev(e="end")
        if lab.late is not None:
            lab.late = None
            t = threading.Timer(0.15, lab.gate.set)
            t.daemon = True
            t.start()
        lab.ev(e="status", finished=bool(sim.finished))
        softexit.trigger(status=sim.exit_status, message=sim.exit_message)
    except SystemExit:
        pass
    except BaseException as e:  # the run died
        import traceback

        err = "".join(traceback.format_exception(e)[-3:])
        lab.ev(e="died", err=err)
    # the main thread is at its end: whatever is not there by now is lost
    lab.ev(e="exit")
    if lab.late is not None:
        lab.late = None
        lab.gate.set()
    if lab.T is not None:
        lab.T.join(5)
        if lab.T.is_alive():
            lab.ev(e="hung")
    ok = softexit.triggered
    why = []
    for k, f in sim.fflist.items():
        th = getattr(f, "_thread", None)
        if th is not None and th.is_alive() and f._doloop[0]:
            ok = False
            why.append("force field %s runs" % k)
    for o in sim.outputs:
        for f in [] if not hasattr(o, "out") else o.out if isinstance(o.out, list) else [o.out]:
            if f is not None and not f.closed:
                ok = False
                why.append("%s open" % f.name)
    lab.ev(e="stopped", ok=bool(ok), why=why)
    if not plan.get("nofiles"):
        lab.ev(e="files", **allfiles(cfg))
    lab.dead = True
    return dict(log=lab.log, names=lab.names, fired=lab.fired)


def allfiles(cfg):
    """contents of all outputs; extras carry no state, only their labels are compared"""
    out, labels, full = [], [], []

    def text(fn):
        try:
            return open(fn).read()
        except OSError:
            return ""

    for k, (j, t, i) in enumerate(outputs_of(cfg)):
        if t["kind"] == "chk":
            out.append([])
            labels.append([])
            continue
        try:
            r = records(cfg, k, text)
        except Exception as e:
            r = [(-5, [-990])]
        labels.append([l for l, v in r])
        if t.get("what") == "extras":
            out.append([])
        else:
            full.append(k + 1)
            out.append([dict(l=l, v=dict(step=l, st=[v])) for l, v in r])
    return dict(files=out, labels=labels, full=full)


def fork(fn, arg, timeout=60):
    """runs fn in a forked process; result as JSON through a pipe"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = fn(arg)
            except BaseException as e:
                import traceback

                res = dict(error="".join(traceback.format_exception(e)[-4:]))
            with os.fdopen(wfd, "w") as f:
                f.write(json.dumps(res))
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    import select

    t0 = time.time()
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            x = os.read(r, 1 << 16)
            if not x:
                break
            buf += x
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else dict(error="no answer")


def world(cfg):
    return dict(
        nsys=cfg["nsys"],
        movers=cfg["movers"],
        sm=cfg["sm"],
        threads=bool(cfg["threads"]),
        total=cfg["total"],
        safe=cfg["safe"],
        outs=[dict(kind="chk" if t["kind"] == "chk" else "rec", stride=t["stride"], sys=(i + 1 if i is not None else 0)) for j, t, i in outputs_of(cfg)],
        dts=[[[a, sum(x)] for a in x] for x in cfg["dts"]] if cfg.get("dts") else [],
        fin=[dict(s=a, m=b, at=c) for a, b, c in cfg["fin"]],
    )


def session(arg):
    """several lives in one directory; returns the trace"""
    cfg, plans, d = arg
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    if os.path.dirname(cfg.get("prefix", "")):
        for i in range(cfg["nsys"]):
            os.makedirs("s%d_" % i + os.path.dirname(cfg["prefix"]), exist_ok=True)
        os.makedirs(os.path.dirname(cfg["prefix"]), exist_ok=True)
    trace = [world(cfg)]
    info = []
    for n, plan in enumerate(plans):
        if n > 0:  # a time limit which has been reached is not to be applied again
            tx = open("RESTART").read() if os.path.exists("RESTART") else ""
            with open("resume.xml", "w") as f:
                f.write(re.sub(r"<total_time[^>]*>[^<]*</total_time>", "", tx))
        r = fork(life, (cfg, None if n == 0 else "resume.xml", plan, n))
        if "error" in r:
            trace.append(dict(e="crashed", error=r["error"]))
            info.append(r)
            break
        trace += r["log"]
        info.append(dict(fired=r["fired"], plan=plan))
        if any(x["e"] in ("refused", "died", "hung", "crashed") for x in r["log"]):
            break
    return trace, info


TCFG = "SPECIFICATION Spec\nCONSTRAINT Track\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
MCFG = "CONSTANTS NSys=%d Total=%d Threads=%s MaxLives=%d SM=%d Safe=%d Fin=%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS RestartIsBoundary Boundaries Files Current1 Bounded\nPROPERTY Leaves\n"
WORLDS_Q = [(2, 3, "FALSE", 3, 1, 1, "FALSE"), (2, 3, "TRUE", 2, 1, 1, "FALSE"), (2, 4, "FALSE", 3, 0, 2, "FALSE"), (2, 3, "FALSE", 3, 1, 1, "TRUE"), (1, 6, "FALSE", 4, 1, 3, "FALSE")]
WORLDS_T = WORLDS_Q + [(3, 3, "TRUE", 3, 2, 1, "FALSE"), (3, 5, "FALSE", 4, 1, 2, "TRUE"), (2, 8, "FALSE", 5, 1, 1, "TRUE"), (3, 3, "TRUE", 3, 1, 1, "TRUE")]


def gencfg(rng, **over):
    nsys = rng.choice([1, 1, 2, 3])
    cfg = dict(
        nsys=nsys,
        movers=[rng.choice([1, 1, 2, 3]) for _ in range(nsys)],
        sm=rng.choice([0, 1, 1, 2]),
        nbeads=rng.choice([1, 2, 4]),
        threads=False,
        total=rng.choice([1, 2, 3, 4, 5, 7]),
        safe=1,
        fin=[],
        multi1=rng.random() < 0.2,
        prefix=rng.choice(["sim", "", "a.b"]),
        templates=[template(rng) for _ in range(rng.choice([1, 2, 3]))],
    )
    cfg.update(over)
    cfg["movers"] = (cfg["movers"] * 3)[: cfg["nsys"]]
    return cfg


def template(rng, kind=None):
    kind = kind or rng.choice(["prop", "traj", "traj", "chk"])
    s = rng.choice([1, 1, 2, 3, 4])
    f = rng.choice([1, 1, 2, 5, 0])
    if kind == "prop":
        return dict(kind=kind, stride=s, flush=f)
    if kind == "traj":
        return dict(kind=kind, stride=s, flush=f, what=rng.choice(["positions", "positions", "forces", "velocities", "momenta", "x_centroid", "f_centroid", "v_centroid", "p_centroid", "extras"]), format=rng.choice(["xyz", "xyz", "pdb"]), bead=rng.choice([-1, -1, 0, -2]))
    return dict(kind=kind, stride=s, overwrite=rng.choice([True, False]))


def fix_templates(cfg):
    for t in cfg["templates"]:
        if t["kind"] == "traj" and t["what"] not in ("positions", "x_centroid"):
            t["format"] = "xyz"
        if t["kind"] == "traj" and t["format"] == "pdb" and cfg["nbeads"] > 2:
            t["format"] = "xyz"
        if t["kind"] == "traj" and t["what"].endswith("_centroid"):
            t["bead"] = -1
    return cfg


def run(jobs, workers=8):
    """runs sessions [(cfg, plans)], returns their traces"""
    from lib import vf
    import ipi.engine.simulation, ipi.inputs.simulation, ipi.scripting.interactive  # noqa

    base = vf.scratch("run_")
    return [r[0] for r in vf.procmap(session, [(fix_templates(c), p, os.path.join(base, "%d" % i)) for i, (c, p) in enumerate(jobs)], workers=workers, timeout=600)]


def check(ctx, jobs, workers=8, known=None):
    """runs sessions [(cfg, plans)] and validates their traces; known(trace, n) may name a known finding"""
    from lib import vf
    import ipi.engine.simulation, ipi.inputs.simulation, ipi.scripting.interactive  # noqa

    base = vf.scratch("run_")
    items = [(fix_templates(c), p, os.path.join(base, "%d" % i)) for i, (c, p) in enumerate(jobs)]
    res = vf.procmap(session, items, workers=workers, timeout=600)
    traces = [r[0] for r in res]
    fired = {}
    for r in res:
        for x in r[1]:
            if x.get("fired"):
                k = "%s %s" % (x["plan"]["how"], x["fired"][1])
                fired[k] = fired.get(k, 0) + 1
    for i in range(0, len(traces), 400):
        part = traces[i : i + 400]
        r, prog = vf.validate_traces("RunTrace", TCFG, part)
        ctx.tlc_stats(r)
        for t, p, it, rr in zip(part, prog, items[i:], res[i:]):
            if p < len(t):
                f = known(t, p, it) if known else None
                ctx.violation("the specification cannot explain event %d: %s" % (p, json.dumps(t[p])[:250]), dict(cfg=it[0], plans=it[1], fired=rr[1], trace=[json.dumps(x)[:300] for x in t[max(0, p - 12) : p + 1]]), key=f)
            else:
                ctx.traces()
    ctx.sample(dict(cfg=items[0][0], plans=items[0][1], trace=[json.dumps(x)[:200] for x in traces[0][:40]]))
    return traces, fired
