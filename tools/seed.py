#!/usr/bin/env python3
"""Helper for planted changes.
  seed.py new FILE.py        FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new[, n])], demo=python text, sh=optional)]
  seed.py demo ID...         runs the demonstration on a clean and on a patched scratch copy
  seed.py check ID...        runs the claimed check of its property against the patched copy
  seed.py suite ID...        applies all of them to /repo, runs the stable tests, undoes it
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
SH = """#!/bin/bash
# run with cwd = the repository; exits 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 REPO_DIR="$PWD"
export PATH="$PWD/bin:/opt/venv/bin:$PATH"
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work" && timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def copy():
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", w], check=True)
    return w


def new(fn):
    for s in runpy.run_path(fn)["SEEDS"]:
        w = copy()
        for e in s["edits"]:
            f, old, nw = e[:3]
            p = os.path.join(w, f)
            t = open(p).read()
            n = e[3] if len(e) > 3 else None
            if n is None:
                assert t.count(old) == 1, (s["id"], t.count(old), old)
                t = t.replace(old, nw)
            else:
                parts = t.split(old)
                assert len(parts) > n, (s["id"], old)
                t = old.join(parts[:n]) + nw + old.join(parts[n:])
            open(p, "w").write(t)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        shutil.rmtree(w)
        d = os.path.join(SEED, s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(s.get("sh", SH))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if "demo" in s:
            open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])


def patched(i):
    w = copy()
    subprocess.run(["git", "apply", os.path.join(SEED, i, "patch.diff")], cwd=w, check=True)
    return w


def demo(i):
    out = []
    t = tempfile.mkdtemp(prefix="dm_", dir="/tmp")
    for f in os.listdir(os.path.join(SEED, i)):
        if f.endswith((".sh", ".py", ".xml", ".xyz", ".txt")):
            shutil.copy(os.path.join(SEED, i, f), t)
    for w in (copy(), patched(i)):
        r = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=w, capture_output=True, text=True, timeout=400)
        out.append((r.returncode, (r.stdout + r.stderr).strip()[-250:]))
        shutil.rmtree(w)
    shutil.rmtree(t)
    good = out[0][0] == 0 and out[1][0] != 0
    return "%s %s clean=%s patched=%s" % ("GOOD" if good else "BAD ", i, out[0] if not good else out[0][0], out[1] if not good else (out[1][0], out[1][1][-120:]))


def check(i):
    p = json.load(open(os.path.join(SEED, i, "meta.json")))["property"]
    w = patched(i)
    r = subprocess.run(["/opt/venv/bin/python", "run.py", p], cwd=HERE, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True, timeout=1000)
    shutil.rmtree(w)
    cl = [l for l in r.stdout.splitlines() if l.startswith("violated") or "MACHINERY" in l]
    return "%s %s rc=%d %s" % (i, p, r.returncode, (cl or [""])[0][:160])


def suite(ids):
    try:
        for i in ids:
            subprocess.run(["git", "-C", "/repo", "apply", os.path.join(SEED, i, "patch.diff")], check=True)
        subprocess.run(["bash", os.path.join(HERE, "tools", "suite.sh")])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])


if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for f in a:
            new(f)
    elif cmd == "suite":
        suite(a)
    else:
        w = 4 if cmd == "demo" else int(os.environ.get("W", "2"))
        with ThreadPoolExecutor(w) as ex:
            for r in ex.map({"demo": demo, "check": check}[cmd], a):
                print(r, flush=True)
