"""Worker for C04: drives the polls of the real interface one by one with gated
clients, and records which client was given which request in each poll."""

import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.socklab import Conn, Dead, Lab  # noqa


class GConn(Conn):
    """Client that answers GETFORCE only when told to."""

    def __init__(self, lab, c, spec):
        super().__init__(lab, c, spec, 0)
        self.gate = threading.Event()
        self.kill = False
        self.opened = threading.Event()
        if lab.sc["consolidate"]:
            self.gate.set()

    def open(self):
        super().open()
        self.opened.set()

    def trigger(self, point, sender=None):
        if point == "getforce":
            self.gate.wait(60)
            if not self.lab.sc["consolidate"]:
                self.gate.clear()
            if self.kill:
                self.log("die_", c=self.c)
                self.s.close()
                raise Dead


class SchedLab(Lab):
    def run(self):
        sc = self.sc
        self.xk, self.cid = {}, {}
        self.start()
        cl, reqs, out = {}, {}, []
        cfg = {"e": "cfg", "rep": []}
        out.append(cfg)
        err = None

        def events(n0):
            with self.log.lock:
                return self.log.ev[n0:]

        greeted, dead = [], set()
        hold, since = {}, {}  # request -> client that got it, and its start time

        def arrivals(n0):
            asg = [[e["c"], dedup(e["b"])] for e in events(n0) if e["e"] == "rxPOSDATA"]
            for c, b in asg:
                for r in b:
                    if hold.get(r) != c and r in reqs:
                        hold[r], since[r] = c, reqs[r]["start"]
            return sorted(asg)

        def busy(c):
            return [r for r, rq in reqs.items() if rq["status"] == "Running" and hold.get(r) == c]

        for st in sc["steps"]:
            op = st[0]
            if op == "conn":
                c = st[1]
                g = GConn(self, c, {"init": sc["init"][c - 1]})
                cl[c] = g
                self.xk[c] = "json"
                t = threading.Thread(target=g.run, daemon=True)
                t.start()
                self.threads.append(t)
                g.opened.wait(10)
                out.append({"e": "conn", "c": c})
            elif op == "submit":
                r, rq = self.submit(st[1])
                reqs[r] = rq
                cfg["rep"].append(st[1])
                out.append({"e": "submit", "r": r})
            elif op in ("fin", "die"):
                c = st[1]
                holding = busy(c)
                if not holding or c in dead:
                    continue
                if op == "die":
                    cl[c].kill = True
                    dead.add(c)
                    out.append({"e": "die", "c": c})
                    cl[c].gate.set()
                    time.sleep(0.01)
                else:
                    out.append({"e": "fin", "c": c})
                    cl[c].gate.set()
                    t1 = time.time() + 10
                    while time.time() < t1 and any(reqs[r]["status"] != "Done" for r in holding):
                        time.sleep(0.0005)
            elif op == "arm":
                if st[1] in dead or st[1] not in cl:
                    continue
                cl[st[1]].kill = True
                dead.add(st[1])
                out.append({"e": "arm", "c": st[1]})
            elif op == "poll":
                n0 = len(events(0))
                th = threading.Thread(target=self.poll1, daemon=True)
                th.start()
                th.join(20)
                if th.is_alive():
                    err = "a poll did not return"
                    break
                if self.pollerr:
                    err = self.pollerr
                    break
                # wait for what was handed out to arrive
                t1 = time.time() + 10
                while time.time() < t1:
                    asg = arrivals(n0)
                    if not [
                        r
                        for r, rq in reqs.items()
                        if rq["status"] == "Running"
                        and (hold.get(r) is None or (hold[r] in dead and rq["start"] != since[r]))
                    ]:
                        break
                    time.sleep(0.0005)
                time.sleep(0.002)
                asg = arrivals(n0)
                acc = []
                for e in events(n0):
                    if e["e"] == "rxSTATUS" and e["c"] not in greeted:
                        greeted.append(e["c"])
                        acc.append(e["c"])
                out.append({"e": "poll", "acc": acc, "asg": asg})
                for r in list(reqs):
                    if reqs[r]["status"] == "Done":
                        self.ff.release(reqs.pop(r))
        self.stop.set()
        for g in cl.values():
            g.gate.set()
        t = threading.Thread(target=self.interface.close, daemon=True)
        t.start()
        t.join(5)
        try:
            self.interface.executor.shutdown(wait=False)
        except Exception:
            pass
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)
        return {"trace": out, "err": err, "rep": cfg["rep"]}

    pollerr = None

    def poll1(self):
        try:
            self.interface.poll()
        except BaseException as e:
            import traceback

            self.pollerr = traceback.format_exc()


def dedup(b):
    o = []
    for x in b:
        if x not in o:
            o.append(x)
    return o


def main():
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    scs = json.loads(sys.stdin.read())
    real = os.dup(1)
    os.dup2(2, 1)
    for i, sc in scs:
        r = SchedLab(sc).run()
        os.write(real, ("@@R " + json.dumps([i, r]) + "\n").encode())
        if r["err"]:
            break
    os._exit(0)


if __name__ == "__main__":
    main()
