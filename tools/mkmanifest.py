#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harness modules that exist."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C07": "not built: the specification would need the complete dependency graph of every engine class as its state; C06 decides the mechanism, C12, C13, C16 and C20 decide staleness for integrators, exchanges, Monte Carlo moves and forces after changes of the inputs they name",
    "C08": "not built: C09, C10 and C18 decide the saved step boundary, the output across continuations and the state of the random numbers",
}
checks, na = [], []
for p in props:
    i = p["id"]
    fn = os.path.join(V, "harness", i.lower() + ".py")
    if os.path.exists(fn):
        src = open(fn).read()
        tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
        note = re.search(r'^NOTE = "(.*)"', src, re.M)
        lev = re.search(r'^LEVEL = "(.*)"', src, re.M)
        checks.append(
            {
                "property": i,
                "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % i,
                "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": tech.group(1) if tech else "TLA+ specification checked with TLC; transition graph replayed into the code",
                "level": lev.group(1) if lev else "model_checking",
                "level_note": note.group(1) if note else "exhaustive on the specification within the stated constants; conformance by replay and trace validation",
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, conformance drivers in harness/, started through run.py. No hooks in /repo: everything is observed at sockets, files and the public Python API. Known findings and repaired defects: known_findings.jsonl.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
