#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, the planted bugs and the findings."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
out = open(T + "DESIGN.head.md").read() + open(T + "DESIGN.props.md").read()
out += "\nContracts, obligations, external specifications and assumptions of each unit are in its file, in MANIFEST.json (`level_note`) and in the evidence.\n\n| id | title | level | assumptions and limits |\n|----|-------|-------|------------------------|\n"
m = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    c = m.get(p["id"])
    out += "| %s | %s | %s | %s |\n" % (p["id"], p["title"], c["level"] if c else "not applicable", c["level_note"].replace(" Trusts Verus, Z3 and the extraction engine; evidence lists every external specification.", "").replace("|", "/") if c else "")
out += "\n## 4. Planted bugs\n\nEach was written from the property's text and confirmed (builds, stable tests pass, demonstration fails only with it). `by` names what reported it when it was planted: P = a rejected proof obligation, S = a failing input found on the real code.\n\n| bug | property | by | what it breaks | needs |\n|-----|----------|----|----------------|-------|\n"
by = json.load(open(T + "caught.json")) if os.path.exists(T + "caught.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    k = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    out += "| %s | %s | %s | %s | %s |\n" % (k, d["property"], by.get(k, "?"), d["what_it_breaks"], d["needs"])
out += "\n## 5. Genuine defects found\n\nRepaired ones are one `fix:` commit each; the open one is reported as KNOWN-FINDING by its check.\n\n"
for l in open(V + "/known_findings.txt"):
    out += "* " + l
out += open(T + "DESIGN.tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
