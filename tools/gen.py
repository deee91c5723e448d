#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "bin"), os.path.join(V, "tools")]
from props import P
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": "stateless exhaustive exploration of the real code against a reference model (bounded model checking by enumeration)",
            "level": "model_checking", "level_note": p["note"] + "; trusts the reference model in the harness, the compiler and the stated bounds"})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use the library's own headers. Shared runner: bin/check.py."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
# DESIGN.md
from checks import BOUNDS
cell = lambda s: s.replace("|", "/").replace("\n", " ")
T = "\n".join("| %s | %s | %s | %s |" % (p["id"], cell(p["title"]), cell(p["note"]), cell(BOUNDS[p["id"]])) for p in P if p["id"] in CHECKS)
known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip()]
F = "\n".join("* %s `%s` %s" % (k["property"], k["commit"], k["what"]) for k in sorted(known, key=lambda k: k["property"]) if k["status"] == "fixed")
S = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    S.append("| %s | %s | %s | %s |" % (d, m["property"], cell(m["needs"]), caught.get(d, "-")))
t = open(os.path.join(V, "tools", "design.in.md")).read()
for a, b in (("@TABLE@", T), ("@FIXES@", F), ("@SEEDS@", "\n".join(S))): t = t.replace(a, b)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
