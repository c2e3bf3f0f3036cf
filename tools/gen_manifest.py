"""Writes MANIFEST.json from properties.jsonl and pvt/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pvt.registry import MODULES, ORACLE
PY = "/opt/venv/bin/python -B run.py"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in MODULES:
        checks.append(dict(property=i, quick_cmd=f"{PY} {i} --tier quick", thorough_cmd=f"{PY} {i} --tier thorough",
                           technique="property-based testing (Hypothesis): " + ORACLE.get(i, "generated inputs against an independent oracle"),
                           level="exploration",
                           level_note="generated-input search with shrinking; bounded sizes, no completeness claim; evidence counts cases"))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Checks import pyvallocation from /repo's working tree; no hooks in /repo. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
