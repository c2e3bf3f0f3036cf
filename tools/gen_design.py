"""Writes DESIGN.md from design_body.md, design_props.md, the facets' own rules and seeded/*/meta.json."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
os.environ.setdefault("MPLBACKEND", "Agg")
from pvt.registry import MODULES, ORACLE
from pvt import core
for ms in MODULES.values():
    for m in ms:
        importlib.import_module("pvt." + m)
here = os.path.dirname(os.path.abspath(__file__))
read = lambda n: open(os.path.join(here, n)).read()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
prose = dict(re.findall(r"^### (C\d+)\n(.*?)(?=^### |\Z)", read("design_props.md"), re.S | re.M))
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\nOracle: {ORACLE[i]}.\n")
    for f in core.FACETS[i]:
        out.append(f"* `{f.name}` ({f.quick} / {f.thorough} cases): {f.rule}.")
    out.append(f"\n{prose[i].strip()}\n\nBeyond tests: {p['why_tests_cant']}\n")
caught = {}
for l in read("design_seeded.txt").splitlines():
    if l.strip():
        k, v = l.split(None, 1)
        caught[k] = v
rows = ["| bug | property | needs | effect | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, m['property'])} |")
fixed = json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]
body = read("design_body.md")
for k, v in dict(PROPERTIES="\n".join(out), SEEDED="\n".join(rows), NFIX=str(len(fixed)), FALSE=read("design_false.md").strip(),
                 MUTATION=read("design_mutation.md").strip()).items():
    body = body.replace("{{" + k + "}}", v)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(body)
print(len(body.splitlines()), "lines; prose missing:", [p["id"] for p in props if p["id"] not in prose])
