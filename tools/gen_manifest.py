#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules' own metadata."""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "mc", "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "no check has been built for it yet"})
        continue
    m = importlib.import_module("mc.checks." + p.lower())
    b = m.BOUND if isinstance(m.BOUND, str) else "quick: %s; thorough: %s" % (m.BOUND["quick"], m.BOUND["thorough"])
    checks.append({"property": p,
                   "quick_cmd": "python3 -m mc %s --tier quick" % p,
                   "thorough_cmd": "python3 -m mc %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "model checking: " + m.TECHNIQUE,
                   "level": m.LEVEL, "level_note": "Exhaustive within: " + b})
json.dump({"version": 1, "setup_cmd": "python3 -m mc build",
           "hooks": {"guard": "none", "enable": "none", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Engine in mc/, harness crates in harness/; see DESIGN.md. Known findings: known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
