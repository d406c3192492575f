#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props/*.py tables."""
import importlib.util
import json
import os
import glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
props, checks, na, todo = [], [], [], []
for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    spec = importlib.util.spec_from_file_location("p", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo += m.PS if hasattr(m, "PS") else [m.P]
for P in sorted(todo, key=lambda p: p["id"]):
    props.append({k: P[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    assert len(P["title"]) <= 80, (P["id"], len(P["title"]))
    assert P["statement"].count(". ") <= 2, P["id"]
    if "not_applicable" in P:
        na.append({"property": P["id"], "reason": P["not_applicable"]})
    else:
        checks.append({
            "property": P["id"],
            "quick_cmd": "%s run.py %s" % (PY, P["id"]),
            "thorough_cmd": "VERIF_TIER=thorough %s run.py %s" % (PY, P["id"]),
            "technique": P["technique"],
            "level": P.get("level", "model_checking"),
            "level_note": P["level_note"],
        })
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/usr/bin/python3 lib/extbuild.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Specifications in spec/ (TLA+, checked with TLC); drivers/ run the real code; lib/extbuild.py builds the "
             "C++ extensions from /repo with the stand-in binding headers in bind/. No hooks in /repo.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
