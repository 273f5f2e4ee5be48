#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the units present."""
import json, os, importlib.util, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/units"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
exec(open(V + "/tools/not_applicable.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    f = V + "/units/%s.py" % i.lower()
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module(i.lower())
        note = getattr(m, "NOTE", "")
        checks.append(dict(property=i, quick_cmd="python3 engine/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 engine/check.py " + i,
            technique="contract-based deductive verification: Verus (SMT) on functions extracted mechanically from the source on every run"
                      + ("; failing inputs searched on the real code" if hasattr(m, "harness") else ""),
            level=getattr(m, "LEVEL", "proof"),
            level_note=(note + " " if note else "") + "Assumes: " + "; ".join(m.ASSUMPTIONS) + ". Trusts Verus, Z3 and the extraction engine; evidence lists every external specification."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Every check takes the functions under contract from /repo's working tree at run time; no hooks in /repo are needed."),
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
