"""Writes known_findings.json: no open findings; every repaired defect with its property and commit."""
import json, os, subprocess
MAP = """
robust SOCP uses the transposed=C06
relaxed risk parity average-risk cone=C08
risk-budget floor=C07
max_sharpe homogenises=C03
mean-variance QP retries=C01
report signed CVaR=C05
robust solutions report the uncertainty radius=C06
relaxed risk parity keeps return targets=C08
relaxed risk parity return bound=C08
integer-valued constraint=C09
per-call trading costs=C11
non-finite return targets=C10
relaxed risk parity rejects a NaN=C10
min_variance_at_return raises=C10
unknown return_type=C10
from_prices rejects=C10
negative or non-finite trading=C10
constraint rows with NaN=C09
frontier selectors reject=C12
robust optimisation with proportional costs=C11
max_sharpe raises=C10
min_risk ensemble selector=C14
negative ensemble weights=C13
duplicate ensemble=C14
labelled ensemble weights=C14
ensemble specifications accept=C14
risks of riskless=C02
rounding noise of large=C15
integer-programme allocation works=C16
integer-programme allocation reaches=C16
non-finite prices, budgets=C15
probability vectors whose sum=C17
exponential decay=C17
portfolio_var accepts=C19
scenario_pnl rejects=C20
scenario_pnl keeps=C20
drawdowns count=C20
drawdown_quantile matches=C20
simulate_paths rejects=C26
simulate_paths supports=C26
make_repricing_fn prices=C27
stress reports show zero=C32
project_scenarios normalises=C26
relative entropy of stress=C32
stress_invariants matches=C33
simple-to-compound=C25
entropy pooling meets=C28
flexible views work with a single=C29
flexible views all hold=C29
flexible views align=C29
no longer truncate=C31
align labelled samples=C31
exact mean-uncertainty=C31
leaves the caller's market weights=C36
view processors match labelled=C30
sample moments take=C21
Ledoit-Wolf intensity=C22
moment estimators accept a single=C21
James-Stein=C23
Tyler=C22
POET=C22
Huber=C23
EWMA=C22
graphical lasso=C22
labelled shrinkage targets=C22
variance optimisation survives=C02
nonlinear shrinkage=C22
PSD check and repair=C37
infinite entries is never=C37
frontier grids draw=C38
frontier grids accept=C38
vertical weight bars=C38
parameter-impact=C38
frontier reports mark=C38
shrinkage inputs whose rows=C35
portfolio variance matches=C35
return conversions match=C35
row and column label orders=C35
portfolio VaR and CVaR refuse=C39
entropy pooling refuses inequality=C39
return conversions refuse=C39
effective number of scenarios refuses=C39
moment scaling refuses=C39
"""
pairs = [l.rsplit("=", 1) for l in MAP.strip().splitlines()]
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fix_map_extra.txt")
if os.path.exists(EXTRA):
    pairs += [l.rstrip("\n").rsplit("=", 1) for l in open(EXTRA) if "=" in l]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    t = s[5:]
    m = [p for k, p in pairs if k in t]
    assert m, s
    fixed.append(f"fixed: property={m[0]} {h} {t}")
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(findings=[], fixed=fixed), open(os.path.join(root, "known_findings.json"), "w"), indent=1)
print(len(fixed))
