#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (repaired defects, planted bugs, unclaimed properties)."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "DESIGN.md")).read()


def fill(name, text):
    global s
    block = "<!-- %s -->\n%s\n<!-- /%s -->" % (name, text, name)
    if name in s and "<!-- %s -->" % name not in s:
        s = s.replace(name, block)
    else:
        s = re.sub("<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: block, s, flags=re.S)


fixed = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip()]
fill("SECTION_FIXED", "\n".join("* " + f["line"].replace("fixed: property=", "") for f in sorted(fixed, key=lambda f: f["property"]) if f["kind"] == "fixed"))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m.get("caught_by", m["property"])))
fill("SECTION_SEEDS", "\n".join(rows))
man = json.load(open(os.path.join(V, "MANIFEST.json")))
fill("SECTION_NA", "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in man["not_applicable"]) or "All properties are claimed.")
open(os.path.join(V, "DESIGN.md"), "w").write(s)
