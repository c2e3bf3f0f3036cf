"""C04 C05: mean-CVaR."""
import numpy as np
import pandas as pd
from scipy.optimize import linprog
from .core import facet
from .gen import scenarios, probs, constraint_spec, Poly, names, unit
from .oracle import cvar_exact
from .c_mv import lib, _feasible


def cvar_of(R, p, w, alpha):
    return cvar_exact(-(R @ w), p, alpha)


def min_cvar_lp(R, p, alpha, poly, target=None, costs=None, w0=None):
    """Rockafellar-Uryasev by HiGHS (the library uses GLPK through cvxopt)."""
    T, n = R.shape
    keep = p > 0
    R, p = R[keep], p[keep]
    T = R.shape[0]
    k = 2 * n if costs is not None else 0
    c = np.concatenate([np.zeros(n), [1.0], p / alpha, np.tile(costs, 2) if k else []])
    A = [np.hstack([-R, -np.ones((T, 1)), -np.eye(T), np.zeros((T, k))])]
    b = [np.zeros(T)]
    if poly.G.size:
        A.append(np.hstack([poly.G, np.zeros((len(poly.h), 1 + T + k))]))
        b.append(poly.h)
    if target is not None:
        A.append(np.hstack([-(p @ R)[None], np.zeros((1, 1 + T + k))]))
        b.append([-target])
    Aeq, beq = [], []
    if poly.A.size:
        Aeq.append(np.hstack([poly.A, np.zeros((len(poly.b), 1 + T + k))]))
        beq.append(poly.b)
    if k:
        Aeq.append(np.hstack([np.eye(n), np.zeros((n, 1 + T)), -np.eye(n), np.eye(n)]))
        beq.append(w0)
    bounds = [(None, None)] * (n + 1) + [(0, None)] * (T + k)
    kw = dict(A_ub=np.vstack(A), b_ub=np.concatenate(b), A_eq=np.vstack(Aeq) if Aeq else None,
              b_eq=np.concatenate(beq) if beq else None, bounds=bounds)
    r = linprog(c, method="highs", **kw)
    return r if r.status == 0 else linprog(c, method="highs", options=dict(presolve=False), **kw)


def _problem(case, nmax=4, tmax=40):
    n = case.size(2, nmax)
    T = case.size(4, tmax)
    R, mode = scenarios(case, T, n)
    p = probs(case, T)
    alpha = case.choice([0.05, 0.1, 0.25, 0.01, 0.5]) if case.bool() else case.float(0.02, 0.6)
    spec, w0 = constraint_spec(case, n)
    case.event(mode)
    return n, T, R, p, float(alpha), spec, w0, Poly.from_spec(n, spec)


def _wrap(case, R, p, spec, n):
    pv = lib()
    lab = names(case, n) if case.bool() else None
    S = pd.DataFrame(R, columns=lab) if lab else R
    uniform = np.ptp(p) < 1e-15
    pp = None if uniform and case.bool() else (pd.Series(p) if case.chance(0.3) and lab else p)
    cons = dict(spec) if case.bool() else pv.Constraints.from_dict(dict(spec))
    route = case.int(0, 2)
    if route == 0:
        return pv.PortfolioWrapper.from_scenarios(S, probabilities=pp, constraints=cons), {}, lab
    d = pv.AssetsDistribution(scenarios=S, probabilities=pp)
    if route == 1:
        return pv.PortfolioWrapper(d, constraints=cons), {}, lab
    return pv.PortfolioWrapper(d), dict(constraints=cons), lab


def _better(case, what, R, p, alpha, poly, w, target, tol=1e-6):
    r = min_cvar_lp(R, p, alpha, poly, target)
    if r.status != 0:
        case.inconclusive += 1
        return
    mine = cvar_of(R, p, w, alpha)
    v = r.x[: R.shape[1]]
    # what the oracle's own constraint slack buys: shadow prices of the rows w is held to (HiGHS allows 1e-7)
    off = max(poly.violation(v), poly.violation(w), 0.0 if target is None else max(target - p @ R @ v, target - p @ R @ w), 2e-9)
    T = int((p > 0).sum())
    price = float(np.nansum(np.abs(np.asarray(r.ineqlin.marginals)[T:])) + np.nansum(np.abs(np.asarray(r.eqlin.marginals))))
    if mine > r.fun + tol * (1 + abs(r.fun)) + 3 * price * off:
        case.check(poly.violation(v) < 1e-6 and cvar_of(R, p, v, alpha) < mine - 0.5 * tol, "oracle self-check")
        case.fail(f"{what}: a feasible portfolio has lower CVaR ({r.fun:.9g} < {mine:.9g})", returned=w, better=v)


def resolvable(case, call, span, poly):
    """``call()``, a frontier; a solver that gives up on returns or bounds closer together than its own tolerance is no finding."""
    try:
        return call()
    except RuntimeError:
        gaps = np.diff(np.sort(np.abs(poly.h)))
        if span() < 1e-6 or np.any((gaps > 0) & (gaps < 1e-6)):
            case.reject()
        raise


@facet("C04", quick=900, rule="drawn scenarios (normal, coarse, heavy, all-gain, factor), probabilities incl. zeros, alpha, constraints, attainable target; optimum compared with an independent LP")
def target_portfolio_cvar_optimal(case):
    n, T, R, p, alpha, spec, w0, poly = _problem(case)
    mu = p @ R
    hi, lo = -poly.lp(-mu).fun, poly.lp(mu).fun
    t = float(lo + case.choice([-0.1, 0.3, 0.6, 0.8, 0.95]) * (hi - lo))
    u = unit(case)
    case.note(T=T, p=p, alpha=alpha, spec=spec, target=t, R=R, unit=u)
    wr, kw, lab = _wrap(case, R * u, p, spec, n)
    ws, ret, risk = wr.min_cvar_at_return(t * u, alpha=alpha, **kw)
    ret, risk = ret / u, risk / u
    w = np.asarray(ws, float)
    case.check(list(ws.index) == list(lab if lab else range(n)), "labels", got=list(ws.index))
    _feasible(case, w, poly.add_ge(mu, t), "min_cvar_at_return")
    case.close(ret, mu @ w, "reported return", rtol=1e-8, atol=1e-10)
    case.close(risk, cvar_of(R, p, w, alpha), "reported CVaR (losses positive, gains negative)", rtol=1e-7, atol=1e-9)
    _better(case, "min_cvar_at_return", R, p, alpha, poly, w, t)
    case.event("gain tail", risk < 0)
    case.event("target binds", abs(mu @ w - t) < 1e-7)
    case.nontrivial(T >= 6 and hi - lo > 1e-6)


@facet("C04", quick=500, rule="no return target; optimiser class and frontier's first column")
def min_cvar_optimal(case):
    pv = lib()
    n, T, R, p, alpha, spec, w0, poly = _problem(case)
    u = unit(case)
    case.note(T=T, p=p, alpha=alpha, spec=spec, R=R, unit=u)
    G, h, A, b = pv.Constraints.from_dict(dict(spec)).to_matrices(n)
    w = np.asarray(pv.MeanCVaR(R * u, p, alpha, G, h, A, b).efficient_portfolio(None), float)
    _feasible(case, w, poly, "MeanCVaR")
    _better(case, "MeanCVaR", R, p, alpha, poly, w, None)
    case.nontrivial(T >= 6)


@facet("C04", quick=4, thorough=40, rule="moments only: reported figures equal those of the seeded normal scenarios", min_nontrivial=0.5)
def simulated_normal_scenarios(case):
    pv = lib()
    from .gen import moments
    n = case.int(2, 3)
    mu, S = moments(case, n, hetero=False)
    seed = case.int(0, 1000)
    alpha = case.choice([0.05, 0.2])
    case.note(mu=mu, cov=S, seed=seed, alpha=alpha)
    wr = pv.PortfolioWrapper.from_moments(mu, S)
    R = np.random.default_rng(seed).multivariate_normal(mu, S, 5000)
    m = R.mean(axis=0)
    t = float(m.max() - 0.3 * np.ptp(m))
    a = wr.min_cvar_at_return(t, alpha=alpha, seed=seed)
    w = np.asarray(a[0], float)
    case.close(w.sum(), 1.0, "budget", atol=1e-7)
    case.check(w.min() >= -1e-8, "negative weight")
    case.check(m @ w >= min(t, m.max()) - 1e-6, "target on simulated scenarios missed", got=m @ w, target=t)
    case.close(a[2], cvar_of(R, np.full(5000, 1 / 5000), w, alpha), "CVaR of the simulated scenarios", rtol=1e-6, atol=1e-9)


@facet("C05", quick=1500, rule="drawn scenario problem, 1..9 points, convexity on/off; every column compared with an independent LP optimum")
def cvar_frontier_efficient(case):
    n, T, R, p, alpha, spec, w0, poly = _problem(case, tmax=30)
    m = case.int(1, 9)
    conv = case.bool()
    mu = p @ R
    u = unit(case)
    case.note(T=T, p=p, alpha=alpha, spec=spec, num=m, convex=conv, R=R, unit=u)
    wr, kw, lab = _wrap(case, R * u, p, spec, n)
    span = lambda: -poly.lp(-mu).fun - mu @ min_cvar_lp(R, p, alpha, poly).x[:n]
    fr = resolvable(case, lambda: wr.cvar_frontier(num_portfolios=m, alpha=alpha, enforce_convexity=conv, **kw), span, poly)
    W, ret, risk = np.asarray(fr.weights), np.asarray(fr.returns) / u, np.asarray(fr.risks) / u
    hi = -poly.lp(-mu).fun
    k = W.shape[1]
    case.check(k in (1, m), f"{k} columns for {m} requested")
    case.check(len(ret) == k and len(risk) == k, "lengths")
    case.check(list(fr.asset_names or []) == list(lab or []), "asset names")
    case.close(ret, mu @ W, "returns", rtol=1e-8, atol=1e-10)
    signed = np.array([cvar_of(R, p, W[:, j], alpha) for j in range(k)])
    raw = fr.alternate_risks.get(f"CVaR (raw, alpha={alpha:.2f})")
    case.check(raw is not None, "raw CVaR overlay missing", have=list(fr.alternate_risks))
    case.close(np.asarray(raw) / u, signed, "raw CVaR overlay vs recomputation", rtol=1e-7, atol=1e-9)
    C = (R - mu).T @ ((R - mu) * p[:, None])
    if "Volatility" in fr.alternate_risks:
        case.close(np.asarray(fr.alternate_risks["Volatility"]) / u, np.sqrt(np.maximum(np.einsum("ij,ik,kj->j", W, C, W), 0)), "volatility overlay", rtol=1e-6, atol=1e-8)
    tolr = 1e-6 + 1e-5 * np.max(np.abs(signed))
    case.close(risk, signed, "reported CVaR vs recomputation", rtol=0, atol=tolr)
    case.check(np.all(np.diff(ret) >= -1e-9), "returns decrease", returns=ret)
    case.check(np.all(np.diff(risk) >= -tolr), "risks decrease", risks=risk)
    for j in range(k):
        _feasible(case, W[:, j], poly, f"column {j}")
        _better(case, f"column {j}", R, p, alpha, poly, W[:, j], None if j == 0 else ret[j] - 1e-9, tol=2e-6)
    if m >= 2 and hi - ret[0] > 1e-6 * (1 + abs(hi)) and not np.isclose(ret[0] * u, hi * u):
        case.check(k == m, "frontier collapsed although returns differ")
        case.close(ret[-1], hi, "last column attains the maximum return", rtol=1e-7, atol=1e-8)
        # targets are evenly spaced; a column may only exceed its target when that costs no CVaR
        grid = np.linspace(ret[0], hi, m)
        case.check(np.all(ret >= grid - 1e-7), "a column misses its evenly spaced target", returns=ret, grid=grid)
        for j in np.where(ret > grid + 1e-6)[0]:
            _better(case, f"column {j} at its grid target", R, p, alpha, poly, W[:, j], grid[j], tol=2e-6)
    if conv and k > 2:
        d = np.diff(ret)
        ok = d > 1e-7
        x, y = ret[np.r_[True, ok]], risk[np.r_[True, ok]]
        s = np.diff(y) / np.diff(x)
        slack = 4e-8 / np.minimum(np.diff(x)[1:], np.diff(x)[:-1]) if len(s) > 1 else 0
        case.check(np.all(np.diff(s) >= -1e-6 - slack), "reported risk is not convex in return", slopes=s)
    case.event("gain tail", signed.min() < 0)
    case.event("mixed sign", signed.min() < 0 < signed.max())
    case.nontrivial(k >= 3)


@facet("C05", quick=300, rule="scenarios whose columns all have the same mean (demeaned, or shifted alike when fully invested), so that no return can be gained by more risk: every column of the frontier has the least CVaR; non-trivial = the least-risk portfolio is not the only one")
def no_return_to_gain(case):
    n, T, R, p, alpha, spec, w0, poly = _problem(case, tmax=30)
    shift = 0.0
    R = R - p @ R
    if case.chance(0.3):
        spec, w0 = constraint_spec(case, n, total_free=False)
        poly = Poly.from_spec(n, spec)
        shift = case.choice([0.01, -0.02, 0.3])
    R = R + shift
    m = case.int(2, 6)
    case.note(T=T, p=p, alpha=alpha, spec=spec, num=m, R=R, shift=shift)
    wr, kw, lab = _wrap(case, R, p, spec, n)
    fr = wr.cvar_frontier(num_portfolios=m, alpha=alpha, enforce_convexity=case.bool(), **kw)
    W = np.asarray(fr.weights)
    case.check(W.shape[1] in (1, m), f"{W.shape[1]} columns for {m} requested")
    for j in range(W.shape[1]):
        _feasible(case, W[:, j], poly, f"column {j}")
        _better(case, f"column {j}", R, p, alpha, poly, W[:, j], None, tol=2e-6)
    case.nontrivial(n >= 2 and np.ptp([cvar_of(R, p, w, alpha) for w in (w0, W[:, 0])]) > 1e-6)


@facet("C05", quick=500, rule="scenario problems with proportional trading costs (frontiers need not be convex in CVaR then): raw risks are the CVaRs of the columns; reported risks are those, or their greatest convex non-decreasing minorant when convexity is enforced; non-trivial = the correction changes a figure", min_nontrivial=0.1)
def convexity_correction(case):
    pv = lib()
    n, T, R, p, alpha, spec, w0, poly = _problem(case, tmax=20)
    m = case.int(3, 8)
    conv = case.chance(0.7)
    c = case.uniform(0, 0.08, n) + 1e-4
    mu = p @ R
    case.note(T=T, p=p, alpha=alpha, spec=spec, num=m, convex=conv, R=R, costs=c, start=w0)
    case.nontrivial(False)
    wr, kw, lab = _wrap(case, R, p, spec, n)
    span = lambda: -poly.lp(-mu).fun - mu @ min_cvar_lp(R, p, alpha, poly, costs=c, w0=w0).x[:n]
    fr = resolvable(case, lambda: wr.cvar_frontier(num_portfolios=m, alpha=alpha, enforce_convexity=conv, **{**kw, "costs": pv.TransactionCosts(initial_weights=pd.Series(w0, index=lab) if lab else w0, proportional_costs=pd.Series(c, index=lab) if lab else c)}), span, poly)
    W, ret, risk = np.asarray(fr.weights), np.asarray(fr.returns), np.asarray(fr.risks)
    signed = np.array([cvar_of(R, p, W[:, j], alpha) for j in range(W.shape[1])])
    case.close(ret, mu @ W, "returns", rtol=1e-8, atol=1e-10)
    case.check(np.all(np.diff(ret) >= 0), "columns are not sorted by return")
    raw = np.asarray(fr.alternate_risks[f"CVaR (raw, alpha={alpha:.2f})"])
    case.close(raw, signed, "raw CVaR overlay vs recomputation", rtol=1e-7, atol=1e-9)
    C = (R - mu).T @ ((R - mu) * p[:, None])
    case.close(fr.alternate_risks["Volatility"], np.sqrt(np.maximum(np.einsum("ij,ik,kj->j", W, C, W), 0)), "volatility overlay", rtol=1e-6, atol=1e-8)
    if not conv:
        case.close(risk, signed, "risks without correction", rtol=1e-7, atol=1e-9)
        return
    if len(ret) < 3 or np.diff(ret).min() < 1e-6:
        return
    y = np.maximum.accumulate(signed)
    want = y.copy()
    for i in range(1, len(y) - 1):
        for a in range(i):
            for b in range(i + 1, len(y)):
                want[i] = min(want[i], y[a] + (y[b] - y[a]) * (ret[i] - ret[a]) / (ret[b] - ret[a]))
    case.close(risk, want, "reported risks are not the convex minorant of the frontier's CVaRs", rtol=0, atol=1e-8 + 1e-7 * np.abs(y).max())
    case.nontrivial(np.abs(want - signed).max() > 1e-5)
