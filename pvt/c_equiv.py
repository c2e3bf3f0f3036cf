"""C41: equivalent descriptions of the same problem give the same answer."""
import warnings
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, names, probs, simplex_point, Poly
from .c_mv import lib

SCEN, PORT = {}, {}


def op(table, name):
    def deco(fn):
        table[name] = fn
        return fn
    return deco


class Panel:
    """Scenarios R with probabilities p; rows[i] is the distinct scenario that row i repeats."""

    def __init__(self, d, rows, share):
        self.d, self.rows, self.share = d, np.asarray(rows), np.asarray(share, float)

    def __getattr__(self, k):
        return self.d[k]

    @property
    def R(self):
        R = self.d["R"][self.rows]
        return pd.DataFrame(R, columns=self.d["lab"]) if self.d["labelled"] else R

    def prob(self, p):
        q = np.asarray(p, float)[self.rows] * self.share
        return q / q.sum()

    def vec(self, w):
        return pd.Series(w, index=self.d["lab"]) if self.d["labelled"] else np.asarray(w)

    def merge(self, q):
        out = np.zeros(len(self.d["R"]))
        np.add.at(out, self.rows, np.asarray(q, float).ravel())
        return out


TIGHT = dict(rtol=1e-9, atol=1e-12)


@op(SCEN, "sample moments")
def _(P):
    m, S = lib().estimate_sample_moments(P.R, P.prob(P.p))
    return {"mean": (m, TIGHT), "cov": (S, TIGHT)}


@op(SCEN, "risk measures")
def _(P):
    from pyvallocation.utils import functions as fn
    X, R, p = np.asarray(P.X), np.asarray(P.R, float), P.prob(P.p)
    return {"cvar": (fn.portfolio_cvar(X, R, p, confidence=P.conf), TIGHT), "demeaned cvar": (fn.portfolio_cvar(X, R, p, confidence=P.conf, demean=True), TIGHT), "var": (fn.portfolio_var(X, R, p, confidence=P.conf), TIGHT)}


def _figures(t):
    t = t.to_frame().T if isinstance(t, pd.Series) else t
    return {str(c): (t[c].to_numpy(float), dict(rtol=1e-8, atol=1e-11)) for c in t.columns if t[c].dtype != object and not str(c).startswith("ENS")}


@op(SCEN, "reports")
def _(P):
    pv = lib()
    X = pd.DataFrame(P.X[:, :2], index=P.lab, columns=["A", "B"]) if P.labelled else P.X[:, :2]
    R, p, q = P.R, P.prob(P.p), P.prob(P.p2)
    tabs = {"report": pv.performance_report(P.vec(P.w0), R, probabilities=p, confidence=P.conf), "stress": pv.stress_test(X, R, probabilities=p, stressed_probabilities=q, confidence=P.conf),
            "map": pv.stress_test(X, R, probabilities=p, transform=pv.linear_map(mean_shift=P.mu / 40, scale=1.2), confidence=P.conf, demean=True),
            "pooled": pv.entropy_pooling_stress(X, R, posterior_probabilities=q, probabilities=p, confidence=P.conf)}
    return {f"{k} {c}": v for k, t in tabs.items() for c, v in _figures(t).items()}


@op(SCEN, "entropy pooling")
def _(P):
    R0, p0 = P.d["R"], P.p
    m, sd = p0 @ R0, np.sqrt(p0 @ (R0 - p0 @ R0) ** 2)
    R = np.asarray(P.R, float)
    A, b = np.vstack([np.ones(len(R)), R[:, 0]]), np.array([1.0, m[0] + 0.3 * sd[0]])
    G, h = R[:, -1][None], np.array([m[-1] + 0.4 * sd[-1]])
    return {"q": (P.merge(lib().entropy_pooling(P.prob(p0), A, b, G, h)), dict(rtol=1e-3, atol=2e-5))}


@op(SCEN, "flexible views")
def _(P):
    pv = lib()
    R0, p0 = P.d["R"], P.p
    m, sd = p0 @ R0, np.sqrt(p0 @ (R0 - p0 @ R0) ** 2)
    key = lambda i: P.lab[i] if P.labelled else str(i)
    n = P.n
    kw = {}
    if "mean" in P.vkinds:
        kw["mean_views"] = {key(0): (">=", float(m[0] + 0.2 * sd[0]))}
    if "vol" in P.vkinds:
        kw["vol_views"] = {key(n - 1): ("<=", float(0.94 * sd[-1]))}
    if "skew" in P.vkinds:
        kw["skew_views"] = {key(0): float(p0 @ ((R0[:, 0] - m[0]) / sd[0]) ** 3 - 0.1)}
    if "rank" in P.vkinds and n > 1:
        kw["rank_mean"] = [key(i) for i in P.order]
    if "corr" in P.vkinds and n > 1:
        kw["corr_views"] = {(key(0), key(n - 1)): float(np.clip(p0 @ ((R0[:, 0] - m[0]) * (R0[:, -1] - m[-1])) / (sd[0] * sd[-1]) + 0.05, -0.95, 0.95))}
    f = pv.FlexibleViewsProcessor(P.R, P.prob(p0), sequential=P.seq, **kw)
    pm, pS = f.get_posterior()
    return {"q": (P.merge(f.get_posterior_probabilities()), dict(rtol=2e-3, atol=2e-4)), "mean": (pm, dict(rtol=2e-3, atol=2e-5)), "cov": (pS, dict(rtol=2e-3, atol=1e-5))}


@op(SCEN, "cvar portfolio")
def _(P):
    m = P.p @ P.d["R"]
    poly = Poly.from_spec(P.n, P.spec)
    lo, hi = poly.lp(m).fun, -poly.lp(-m).fun
    costs = dict(costs=lib().TransactionCosts(initial_weights=P.vec(P.w0), proportional_costs=P.vec(P.prop))) if P.costs else {}
    wr = lib().PortfolioWrapper.from_scenarios(P.R, probabilities=P.prob(P.p), constraints=P.spec, **costs)
    w, r, s = wr.min_cvar_at_return(float(lo + 0.9 * P.frac * (hi - lo)), alpha=P.alpha)
    w = np.asarray(w, float)
    return {"risk": (s + np.abs(w - P.w0) @ P.prop * P.costs, dict(rtol=1e-6, atol=1e-7))}


@op(SCEN, "cvar frontier")
def _(P):
    wr = lib().PortfolioWrapper.from_scenarios(P.R, probabilities=P.prob(P.p), constraints=P.spec)
    f = wr.cvar_frontier(4, alpha=P.alpha)
    return {"returns": (f.returns, dict(rtol=1e-5, atol=1e-5)), "risks": (f.risks, dict(rtol=1e-5, atol=1e-5))}


@op(SCEN, "variance frontier of scenarios")
def _(P):
    wr = lib().PortfolioWrapper(lib().AssetsDistribution(scenarios=P.R, probabilities=P.prob(P.p)), constraints=P.spec)
    S = P.d["S_R"]
    try:
        f = wr.variance_frontier(3)
    except ValueError:                                       # moments were not given
        m, C = lib().estimate_sample_moments(P.R, P.prob(P.p))
        f = lib().PortfolioWrapper(lib().AssetsDistribution(mu=m, cov=C, scenarios=P.R, probabilities=P.prob(P.p)), constraints=P.spec).variance_frontier(3)
    over = {k: (v, dict(rtol=5e-3, atol=2e-4)) for k, v in (f.alternate_risks or {}).items()}
    return {"weights": (f.weights, dict(metric=S, lim=0.01)), "returns": (f.returns, dict(rtol=1e-4, atol=2e-5)), "risks": (f.risks, dict(rtol=2e-4, atol=1e-6)), **over}


@op(SCEN, "assembled ensemble")
def _(P):
    pv = lib()
    R = pd.DataFrame(np.asarray(P.R, float), columns=P.lab)
    mk = lambda n, o, **k: pv.make_portfolio_spec(n, returns=R, probabilities=P.prob(P.p), optimiser=o, optimiser_kwargs=dict(num_portfolios=3, constraints=P.spec), selector="min_risk", **k)
    r = pv.assemble_portfolio_ensemble([mk("a", "mean_variance"), mk("b", "mean_variance", projection=dict(annualization_factor=12.0, log_to_simple=True))], ensemble="average")
    return {"average": (r.average.reindex(P.lab).to_numpy(), dict(metric=P.d["S_R"], lim=0.01))}


# ------------------------------------------------------------------ portfolio problems described differently
class Problem:
    def __init__(self, d, mu, S, S2, R, spec, keep):
        self.d, self.mu, self.S, self.S2, self.R, self.spec, self.keep = d, mu, S, S2, R, spec, keep
        self.n = len(mu)

    def __getattr__(self, k):
        return self.d[k]

    def pad(self, v, fill):
        out = np.full(self.n, fill, float)
        out[self.keep] = v
        return out

    def weights(self, W):
        W = np.asarray(W, float)
        rest = np.setdiff1d(np.arange(self.n), self.keep)
        return W[self.keep], (float(np.max(np.abs(W[rest]))) if len(rest) else 0.0)


def _wr(Q, kind=None):
    pv = lib()
    kw = {}
    if kind and Q.costs:
        c = dict(market_impact_costs=Q.pad(Q.impact, 0.05)) if kind == "impact" else dict(proportional_costs=Q.pad(Q.prop, 0.003))
        kw = dict(costs=pv.TransactionCosts(initial_weights=Q.pad(Q.w0, 0.0), **c))
    return pv.PortfolioWrapper(pv.AssetsDistribution(mu=Q.mu, cov=Q.S), constraints=Q.spec, **kw)


def _w(Q, W, lim=0.01):
    a, rest = Q.weights(W)
    return {"weights": (a, dict(metric=Q.d["S0"], lim=lim)), "weight of the barred asset": (rest, dict(atol=1e-6))}


@op(PORT, "variance frontier")
def _(Q):
    f = _wr(Q, "impact").variance_frontier(4)
    return {**_w(Q, f.weights), "returns": (f.returns, dict(rtol=1e-4, atol=2e-4)), "risks": (f.risks, dict(rtol=3e-4, atol=5e-4))}


@op(PORT, "variance at a return")
def _(Q):
    lo, hi = Q.d["span"]
    w, r, s = _wr(Q, "impact").min_variance_at_return(float(lo + 0.9 * Q.frac * (hi - lo)))
    return {**_w(Q, w), "risk": (s, dict(rtol=3e-4, atol=2e-4))}


@op(PORT, "maximum Sharpe ratio")
def _(Q):
    lo, hi = Q.d["span"]
    G, h, A, b = lib().Constraints.from_dict(dict(Q.spec)).to_matrices(Q.n)
    rf = float(hi - 0.02 - 0.1 * Q.frac)
    s = lib().MeanVariance(Q.mu, Q.S, G=G, h=h, A=A, b=b).max_sharpe(rf)
    return {**_w(Q, s.weights), "ratio": ((s.nominal_return - rf) / s.risk, dict(rtol=1e-4))}


@op(PORT, "cvar at a return")
def _(Q):
    m = Q.p @ Q.d["R"]
    lo, hi = Q.d["span_R"]
    pv = lib()
    costs = dict(costs=pv.TransactionCosts(initial_weights=Q.pad(Q.w0, 0.0), proportional_costs=Q.pad(Q.prop, 0.003))) if Q.costs else {}
    w, r, s = pv.PortfolioWrapper.from_scenarios(Q.R, probabilities=Q.p, constraints=Q.spec, **costs).min_cvar_at_return(float(lo + 0.9 * Q.frac * (hi - lo)), alpha=Q.alpha)
    a, rest = Q.weights(w)
    return {"risk": (s + np.abs(a - Q.w0) @ Q.prop * Q.costs, dict(rtol=1e-5, atol=1e-6)), "weight of the barred asset": (rest, dict(atol=1e-6))}


@op(PORT, "cvar frontier")
def _(Q):
    f = lib().PortfolioWrapper.from_scenarios(Q.R, probabilities=Q.p, constraints=Q.spec).cvar_frontier(4, alpha=Q.alpha)
    return {"returns": (f.returns, dict(rtol=1e-5, atol=1e-5)), "risks": (f.risks, dict(rtol=1e-5, atol=1e-5)), "weight of the barred asset": (Q.weights(f.weights)[1], dict(atol=1e-6))}


@op(PORT, "robust frontier")
def _(Q):
    f = _wr(Q, "prop").robust_lambda_frontier(lambdas=[0.2, 0.9], return_cov=Q.S2)
    lam = np.array([m["lambda"] for m in f.metadata])
    o = np.argsort(lam)                                     # columns go by risk, which ties may order either way
    a, rest = Q.weights(np.asarray(f.weights, float)[:, o])
    lam = lam[o]
    S0, mu0 = Q.d["S0"], Q.d["mu0"]
    cost = np.abs(a - Q.w0[:, None]).T @ Q.prop if Q.costs else 0.0
    return {"worst case": (mu0 @ a - lam * np.sqrt(np.einsum("ij,ik,kj->j", a, S0, a)) - cost, dict(rtol=1e-5, atol=2e-6)), "weight of the barred asset": (rest, dict(atol=1e-5))}


@op(PORT, "robust budget")
def _(Q):
    w, r, s = _wr(Q).solve_robust_gamma_portfolio(0.3 + Q.frac, 1.0)
    a, rest = Q.weights(w)
    return {"worst case": (Q.d["mu0"] @ a - (0.3 + Q.frac) * np.sqrt(a @ Q.d["S0"] @ a), dict(rtol=1e-4, atol=1e-5)), "weight of the barred asset": (rest, dict(atol=1e-5))}


# ------------------------------------------------------------------ execution
def _data(case):
    n, T = case.choice([2, 3, 3, 4]) if not case.chance(0.04) else case.int(5, 12), case.choice([15, 20, 28])
    R = 0.03 * (case.normal(T, n + 1) + 0.5 * case.normal(T, 1)) * case.uniform(0.6, 1.6, n + 1) + case.uniform(-0.005, 0.015, n + 1)
    R = np.clip(R + 1e-3 * np.sin(1 + np.outer(np.arange(T), 1 + np.arange(n + 1))), -0.5, 0.5)
    mu, S = moments(case, n + 1, hetero=False)
    _, S2 = moments(case, n + 1, hetero=False)
    mu = mu + 1e-4 * np.arange(n + 1)
    spec, w0 = constraint_spec(case, n)
    p = probs(case, T, zeros=False)
    d = dict(n=n, T=T, lab=[str(x) for x in names(case, n)], labelled=case.bool(), R=R[:, :n], R1=R, mu=mu[:n], mu0=mu[:n], mu1=mu, S0=S[:n, :n], S1=S, S2=S2, spec=spec, w0=w0, p=p, p2=probs(case, T, zeros=False), frac=case.float(0, 1),
             alpha=case.choice([0.1, 0.25]), conf=case.choice([0.8037, 0.9041, 0.9523]), costs=case.chance(0.4), impact=case.uniform(0.01, 0.2, n), prop=case.uniform(0, 0.01, n), seq=case.bool(), order=[int(i) for i in case.perm(n)],
             vkinds=[k for k in ("mean", "vol", "skew", "rank", "corr") if case.chance(0.4)] or ["mean"], X=np.column_stack([simplex_point(case, n) for _ in range(4)]))
    d["S_R"] = np.cov(d["R"].T).reshape(n, n)
    return d


def _run(fn, x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", fn(x)
        except Exception as exc:                                            # noqa: BLE001 - outcomes are compared
            return type(exc).__name__, str(exc)[:200]


def _compare(case, name, how, a, b):
    case.check(a[0] == b[0], f"{name}: {a[0]} ({str(a[1])[:100]}) as given, {b[0]} ({str(b[1])[:100]}) {how}")
    if a[0] != "ok":
        return False
    case.check(set(a[1]) == set(b[1]), f"{name}: other figures {how}: {sorted(set(a[1]) ^ set(b[1]))}")
    if "frontier" in name and "returns" in a[1] and np.size(a[1]["returns"][0]) != np.size(b[1]["returns"][0]):
        span = max(np.ptp(np.asarray(x["returns"][0], float)) for x in (a[1], b[1]))
        if span <= 5e-5 and 1 in (np.size(a[1]["returns"][0]), np.size(b[1]["returns"][0])):
            case.event("frontier on the verge of one point")
            return False
    for k, (x, o) in a[1].items():
        x, y = np.asarray(x, float), np.asarray(b[1][k][0], float)
        case.check(x.shape == y.shape, f"{name}: {k} has shape {x.shape} as given, {y.shape} {how}")
        if "metric" in o:
            D = (y - x).reshape(x.shape[0], -1)
            dist = np.sqrt(np.max(np.einsum("ik,ij,jk->k", D, o["metric"], D), initial=0.0))
            case.check(dist <= o["lim"] * np.sqrt(np.mean(np.diag(o["metric"]))), f"{name}: {k} differ by {dist:.3g} in risk {how}", base=x, other=y)
        else:
            case.close(y, x, f"{name}: {k} {how}", rtol=0.0, atol=o.get("atol", 0.0) + o.get("rtol", 0.0) * float(np.max(np.abs(x), initial=0)))
    return True


@facet("C41", quick=2500, rule="one drawn operation on drawn scenarios, and on the same distribution with scenarios split into repeats that share their probability, impossible scenarios added and rows reordered: same figures, merged posterior probabilities equal; non-trivial = succeeds and the description really differs")
def same_distribution(case):
    d = _data(case)
    T = d["T"]
    rows, share = [], []
    for t in range(T):
        k = case.choice([1, 1, 1, 2, 3])
        parts = simplex_point(case, k, 0.2) if k > 1 else [1.0]
        rows += [t] * k
        share += list(parts)
    zeros = 0
    name = case.choice(sorted(SCEN))
    if name not in ("entropy pooling", "flexible views") and case.bool():   # priors of pooling are positive by definition
        zeros = case.int(1, 3)
        rows += [case.int(0, T - 1) for _ in range(zeros)]
        share += [0.0] * zeros
    o = case.perm(len(rows))
    rows, share = np.asarray(rows)[o], np.asarray(share)[o]
    case.note(op=name, rows=rows, zeros=zeros, **{k: d[k] for k in ("n", "T", "spec", "frac", "alpha", "conf", "vkinds", "seq", "labelled", "costs")})
    a, b = _run(SCEN[name], Panel(d, np.arange(T), np.ones(T))), _run(SCEN[name], Panel(d, rows, share))
    ok = _compare(case, name, "with scenarios split", a, b)
    case.event(name)
    case.event("errors alike", not ok)
    case.nontrivial(ok and len(rows) > T)


def _redescribe(case, spec, n, how):
    """The same set of portfolios written with rescaled, repeated, reordered rows only."""
    G, h, A, b = lib().Constraints.from_dict(dict(spec)).to_matrices(n)
    G, h, A, b = np.asarray(G, float), np.ravel(np.asarray(h, float)), np.asarray(A, float).reshape(-1, n), np.ravel(np.asarray(b, float))
    out = {"long_only": False}
    tot = [i for i in range(len(A)) if np.allclose(A[i], 1.0)]
    if tot:
        out["total_weight"] = float(b[tot[0]])
    rows = [(G[i], h[i]) for i in range(len(h))]
    if "repeated" in how:
        rows += [rows[case.int(0, len(rows) - 1)] for _ in range(case.int(1, 3))]
    if "implied" in how:                                    # average of two rows, or a row loosened
        i, j = case.int(0, len(rows) - 1), case.int(0, len(rows) - 1)
        rows.append((0.5 * (rows[i][0] + rows[j][0]), 0.5 * (rows[i][1] + rows[j][1]) + case.choice([0.0, 0.1, 10.0])))
    if "rescaled" in how:
        rows = [(g * s, v * s) for g, v in rows for s in [case.choice([1.0, 0.01, 3.0, 100.0])]]
    if "reordered" in how:
        rows = [rows[i] for i in case.perm(len(rows))]
    out["additional_G_h"] = rows
    eq = [(A[i], b[i]) for i in range(len(A)) if i not in tot]
    if eq:
        s = case.choice([1.0, -1.0, 2.0]) if "rescaled" in how else 1.0
        out["additional_A_b"] = [(g * s, v * s) for g, v in eq]
    return out


@facet("C41", quick=1200, rule="one drawn optimiser on a drawn problem, and with the same portfolios described by repeated, implied, rescaled and reordered rows instead of bounds and groups: same portfolio and figures; non-trivial = succeeds")
def same_constraints(case):
    d = _data(case)
    n = d["n"]
    name = case.choice(sorted(PORT))
    if name == "maximum Sharpe ratio":
        d["spec"] = constraint_spec(case, n, total_free=False)[0]         # documented as w = y / 1'y: fully invested
    poly = Poly.from_spec(n, d["spec"])
    d["span"] = (poly.lp(d["mu0"]).fun, -poly.lp(-d["mu0"]).fun)
    m = d["p"] @ d["R"]
    d["span_R"] = (poly.lp(m).fun, -poly.lp(-m).fun)
    how = [k for k in ("repeated", "implied", "rescaled", "reordered") if case.bool()]
    spec2 = _redescribe(case, d["spec"], n, how)
    case.note(op=name, how=how, spec=d["spec"], other=spec2, mu=d["mu0"], S=d["S0"], frac=d["frac"], costs=d["costs"])
    mk = lambda spec: Problem(d, d["mu0"], d["S0"], d["S2"][:n, :n], d["R"], spec, np.arange(n))
    a, b = _run(PORT[name], mk(d["spec"])), _run(PORT[name], mk(spec2))
    ok = _compare(case, name, f"with rows {' and '.join(how) or 'instead of bounds'}", a, b)
    case.event(name)
    case.event("errors alike", not ok)
    case.nontrivial(ok)


@facet("C41", quick=1000, rule="one drawn optimiser on a drawn problem, and with one more asset that the constraints bar from being held, at a drawn position: same portfolio of the others, nothing in the barred one; non-trivial = succeeds")
def barred_asset(case):
    d = _data(case)
    n = d["n"]
    name = case.choice(sorted(PORT))
    if name == "maximum Sharpe ratio":
        d["spec"] = constraint_spec(case, n, total_free=False)[0]         # documented as w = y / 1'y: fully invested
    poly = Poly.from_spec(n, d["spec"])
    d["span"] = (poly.lp(d["mu0"]).fun, -poly.lp(-d["mu0"]).fun)
    m = d["p"] @ d["R"]
    d["span_R"] = (poly.lp(m).fun, -poly.lp(-m).fun)
    at = case.int(0, n)
    new = [i for i in range(n)]
    pos = [i + (i >= at) for i in new]                      # old asset i sits at pos[i]
    order = np.insert(np.arange(n), at, n)
    spec = d["spec"]
    out = {k: v for k, v in spec.items() if k in ("long_only", "total_weight")}
    b = spec.get("bounds")
    if isinstance(b, dict):
        bd = {pos[k]: v for k, v in b.items()}
    elif isinstance(b, list):
        bd = {pos[k]: v for k, v in enumerate(b)}
    elif isinstance(b, tuple):
        bd = {pos[k]: b for k in range(n)}
    else:
        bd = {}
    bd[at] = (0.0, 0.0)
    if isinstance(b, dict) or b is None:
        out["bounds"] = bd
    else:
        out["bounds"] = [bd[i] for i in range(n + 1)]
    if spec.get("relative_bounds"):
        out["relative_bounds"] = [(pos[i], pos[j], k) for i, j, k in spec["relative_bounds"]]
    if spec.get("group_constraints"):
        out["group_constraints"] = {g: ([pos[i] for i in idx] + ([at] if case.bool() else []), lo, hi) for g, (idx, lo, hi) in spec["group_constraints"].items()}
    for key in ("additional_G_h", "additional_A_b"):
        if spec.get(key):
            out[key] = [(np.insert(np.asarray(r, float), at, case.choice([0.0, 1.0, -2.0])), v) for r, v in spec[key]]
    case.note(op=name, at=at, spec=spec, other=out, mu=d["mu1"][order], S=d["S1"][np.ix_(order, order)], frac=d["frac"], costs=d["costs"])
    A = Problem(d, d["mu0"], d["S0"], d["S2"][:n, :n], d["R"], spec, np.arange(n))
    B = Problem(d, d["mu1"][order], d["S1"][np.ix_(order, order)], d["S2"][np.ix_(order, order)], d["R1"][:, order], out, np.asarray(pos))
    a, c = _run(PORT[name], A), _run(PORT[name], B)
    ok = _compare(case, name, "with a barred asset added", a, c)
    case.event(name)
    case.event("errors alike", not ok)
    case.nontrivial(ok)
