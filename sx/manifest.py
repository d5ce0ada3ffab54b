#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check in props/"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUST = "symbolic execution of the compiled crate's LLVM IR, assertions decided by Z3 over all values within the bounds; counterexamples replayed natively"
PY = "; the Python modules above it by symbolic execution over z3 proxies with a stand-in of the extension"
checks, na = [], []
with open(os.path.join(VERIF, "properties.jsonl")) as f:
    ids = [json.loads(x)["id"] for x in f]
for i in ids:
    if not os.path.exists(os.path.join(VERIF, "sx", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    m = importlib.import_module("props." + i.lower())
    c = "python3 sx/check.py " + i
    checks.append({"property": i, "quick_cmd": c + " quick", "thorough_cmd": c + " thorough", "technique": getattr(m, "TECHNIQUE", RUST + (PY if hasattr(m, "python_layer") else "")), "level": "model_checking", "level_note": m.EXPLANATION + " Bounded: " + "; ".join("%s: %s" % x for x in (m.BOUNDS("quick") if callable(m.BOUNDS) else m.BOUNDS).items()) + "."})
doc = {
    "version": 1,
    "setup_cmd": "python3 sx/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile a scratch copy of /repo/src with the harness module added to it"},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Known and fixed findings: known_findings.json.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
