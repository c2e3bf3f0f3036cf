"""C01 C02 C03: mean-variance."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, Poly, names, probs, unit
from .oracle import require_optimal

FEAS = 2e-6


def lib():
    import pyvallocation as pv
    return pv


def _problem(case, nmax=6, **kw):
    n = case.size(1, nmax) if case.chance(0.1) else case.size(2, nmax)
    mu, S = moments(case, n)
    spec, w0 = constraint_spec(case, n, **kw)
    return n, mu, S, spec, w0, Poly.from_spec(n, spec)


def _var_tol(S, f):
    return 5e-7 + 2e-5 * abs(f)


def _feasible(case, w, poly, what):
    case.check(np.all(np.isfinite(w)), f"{what}: non-finite weights", w=w)
    v = poly.violation(w)
    case.check(v <= FEAS * (1 + np.max(np.abs(poly.h), initial=0)), f"{what}: constraint violated by {v:.3g}", w=w)


def _wrap(case, mu, S, spec, n, u=1.0):
    """Build the wrapper through one of the equivalent public routes (returns quoted in unit ``u``)."""
    pv = lib()
    mu, S = mu * u, S * (u * u)
    lab = names(case, n) if case.bool() else None
    m = pd.Series(mu, index=lab) if lab else mu
    C = pd.DataFrame(S, index=lab, columns=lab) if lab else S
    route = case.int(0, 2)
    cons = dict(spec) if case.bool() else pv.Constraints.from_dict(dict(spec))
    case.event(f"route{route}")
    if route == 0:
        wr, kw = pv.PortfolioWrapper.from_moments(m, C, constraints=cons), {}
    elif route == 1:
        wr, kw = pv.PortfolioWrapper(pv.AssetsDistribution(mu=m, cov=C), constraints=cons), {}
    else:
        wr, kw = pv.PortfolioWrapper.from_moments(m, C), dict(constraints=cons)
    return wr, kw, lab


def _target(case, mu, poly, w0):
    hi = -poly.lp(-mu).fun
    lo = poly.lp(mu).fun
    t = lo + case.choice([0.0, 0.3, 0.6, 0.8, 0.95]) * (hi - lo) + case.float(0, 0.04) * (hi - lo)
    t = min(t, hi - 1e-3 * (hi - lo) - 1e-6)          # strictly attainable: the QP needs a feasible interior
    return float(t if hi - lo > 1e-4 else lo - 0.01), lo, hi


@facet("C01", quick=400, rule="drawn (mu, PD Sigma, constraint spec with interior witness, target); non-trivial = >=2 assets and optimum not forced")
def target_portfolio_optimal(case):
    n, mu, S, spec, w0, poly = _problem(case)
    t, lo, hi = _target(case, mu, poly, w0)
    u = unit(case)
    case.note(mu=mu, cov=S, spec=spec, target=t, unit=u)
    wr, kw, lab = _wrap(case, mu, S, spec, n, u)
    w_s, ret, risk = wr.min_variance_at_return(t * u, **kw)
    ret, risk = ret / u, risk / u
    w = np.asarray(w_s, float)
    case.check(lab is None or list(w_s.index) == list(lab), "labels lost", got=list(w_s.index))
    p2 = poly.add_ge(mu, t)
    _feasible(case, w, p2, "min_variance_at_return")
    case.close(ret, mu @ w, "reported return", rtol=1e-8, atol=1e-10)
    case.close(risk, np.sqrt(w @ S @ w), "reported volatility", rtol=1e-6, atol=1e-8)
    f = lambda x: float(x @ S @ x)
    require_optimal(case, "variance", f, lambda x: 2 * S @ x, w, p2, _var_tol(S, f(w)))
    case.nontrivial(n >= 2 and hi - lo > 1e-6)
    case.event("binding target", mu @ w < t + 1e-5)
    case.event("short", spec.get("long_only") is False)


@facet("C01", quick=200, rule="drawn problem without target; global minimum variance via the optimiser and via the frontier's first column")
def min_variance_optimal(case):
    pv = lib()
    n, mu, S, spec, w0, poly = _problem(case)
    u = unit(case)
    case.note(mu=mu, cov=S, spec=spec, unit=u)
    G, h, A, b = pv.Constraints.from_dict(dict(spec)).to_matrices(n)
    w = np.asarray(pv.MeanVariance(mu * u, S * (u * u), G, h, A, b).efficient_portfolio(None), float)
    _feasible(case, w, poly, "MeanVariance")
    f = lambda x: float(x @ S @ x)
    require_optimal(case, "variance", f, lambda x: 2 * S @ x, w, poly, _var_tol(S, f(w)))
    case.nontrivial(n >= 2)


@facet("C01", quick=80, rule="equality-only problems solved in closed form (no inequality constraints, budget and target)")
def unconstrained_closed_form(case):
    pv = lib()
    n = case.size(2, 6)
    mu, S = moments(case, n, hetero=False)
    tw = case.choice([1.0, 1.0, 0.5, 2.0])
    u = unit(case)
    case.note(mu=mu, cov=S, total=tw, unit=u)
    wr = pv.PortfolioWrapper.from_moments(mu * u, S * (u * u), long_only=False, total_weight=tw)
    one = np.ones(n)
    Si1 = np.linalg.solve(S, one)
    w = tw * Si1 / (one @ Si1)
    base = float(mu @ w)
    t = base + case.float(-0.1, 0.2)
    if t > base and np.ptp(mu) <= 1e-2:
        case.reject()
    if t > base:
        K = np.block([[2 * S, -one[:, None], -mu[:, None]], [one[None], np.zeros((1, 2))], [mu[None], np.zeros((1, 2))]])
        w = np.linalg.solve(K, np.r_[np.zeros(n), tw, t])[:n]
    got, ret, risk = wr.min_variance_at_return(t * u)
    scale = 1 + np.max(np.abs(w))
    f = w @ S @ w
    g = np.asarray(got, float)
    case.close(g @ S @ g, f, "variance vs closed form", rtol=1e-4, atol=2e-6 * scale)
    case.close(g.sum(), tw, "budget", atol=1e-6 * scale)
    case.check(mu @ g >= t - 1e-6 * scale, "target missed")


@facet("C02", quick=160, rule="drawn problem and point count 1..12; every column checked; non-trivial = frontier with >=3 distinct columns")
def frontier_is_efficient(case):
    pv = lib()
    n, mu, S, spec, w0, poly = _problem(case)
    m = case.int(1, 12)
    u = unit(case)
    case.note(mu=mu, cov=S, spec=spec, num=m, unit=u)
    wr, kw, lab = _wrap(case, mu, S, spec, n, u)
    fr = wr.variance_frontier(num_portfolios=m, **kw)
    f_ret, f_risk = np.asarray(fr.returns) / u, np.asarray(fr.risks) / u
    W = fr.weights
    hi = -poly.lp(-mu).fun
    f = lambda x: float(x @ S @ x)
    _feasible(case, W[:, 0], poly, "first column")
    require_optimal(case, "first column variance", f, lambda x: 2 * S @ x, W[:, 0], poly, _var_tol(S, f(W[:, 0])))
    case.close(f_ret, mu @ W, "frontier returns", rtol=1e-8, atol=1e-10)
    case.close(f_risk, np.sqrt(np.einsum("ij,ik,kj->j", W, S, W)), "frontier risks", rtol=1e-6, atol=1e-8)
    case.check(list(fr.asset_names or []) == list(lab or []), "asset names")
    r0 = float(mu @ W[:, 0])
    span = hi - r0
    if m < 2 or span < 1e-5 * max(1, abs(hi)):
        case.nontrivial(False)
        case.check(W.shape[1] in (1, m), "collapsed frontier shape")
        return
    case.check(W.shape == (n, m), f"frontier shape {W.shape}")
    grid = np.linspace(r0, hi, m)
    # a variance error of 5e-7 moves the weights by at most sqrt(5e-7 / lambda_min)
    slop = float(np.linalg.norm(mu - mu.mean()) * np.sqrt(_var_tol(S, f(W[:, 0])) / np.linalg.eigvalsh(S)[0]))
    # targets evenly spaced; when the least-variance portfolio at a target already exceeds it the column is the same optimum
    for k in range(1, m):
        w = W[:, k]
        p2 = poly.add_ge(mu, grid[k])
        _feasible(case, w, p2, f"column {k}")
        fk = f(w)
        near_end = k == m - 1
        tol = _var_tol(S, fk) + (2e-5 * np.sqrt(fk) if near_end else 0)
        require_optimal(case, f"column {k} variance", f, lambda x: 2 * S @ x, w,
                        poly.add_ge(mu, grid[k] - (1e-9 if near_end else 0)), tol)
        # strictly convex => the target binds (return equals the grid value)
        case.check(mu @ w <= grid[k] + 5e-3 * span + 1e-5 + slop, f"column {k} return {mu @ w:.6g} off target {grid[k]:.6g}")
    case.close(f_ret[-1], hi, "last column attains the maximum return", rtol=1e-5, atol=1e-6)
    case.check(np.all(np.diff(f_ret) >= -1e-3 * span - 2e-5 - slop), "returns decrease", returns=f_ret)
    case.check(np.all(np.diff(f_risk) >= -2e-5), "risks decrease", risks=f_risk)
    case.nontrivial(m >= 3 and n >= 2)


@facet("C02", quick=200, rule="means all equal, given as such or computed from demeaned (or alike shifted) scenarios, so that no return can be gained by more risk: every column of the frontier has the least variance; non-trivial = the witness portfolio is riskier")
def no_return_to_gain(case):
    pv = lib()
    n = case.size(2, 6)
    shift = case.choice([0.0, 0.0, 0.01, -0.02, 0.3])
    spec, w0 = constraint_spec(case, n, total_free=shift == 0.0)
    poly = Poly.from_spec(n, spec)
    m = case.int(2, 6)
    if case.bool():
        T = case.size(n + 6, 30)
        R = case.choice([0.004, 0.05]) * (case.normal(T, n) + 0.4 * case.normal(T, 1)) * case.uniform(0.6, 1.6, n)
        R = R + 1e-3 * np.sin(1 + np.outer(np.arange(T), 1 + np.arange(n)))
        p = probs(case, T, zeros=False)
        R = R - p @ R + shift
        mu, S = np.full(n, shift), (R - p @ R).T @ ((R - p @ R) * p[:, None])
        if np.linalg.eigvalsh(S).min() < 1e-6 * np.trace(S):
            case.reject()
        kw = {}
        wr = case.choice([lambda: pv.PortfolioWrapper.from_scenarios(R, probabilities=p, constraints=dict(spec)), lambda: pv.PortfolioWrapper(pv.AssetsDistribution(scenarios=R, probabilities=p), constraints=dict(spec)),
                          lambda: pv.PortfolioWrapper.from_moments(*pv.estimate_sample_moments(R, p), constraints=dict(spec))])()
        case.note(R=R, p=p, spec=spec, num=m)
    else:
        _, S = moments(case, n)
        mu = np.full(n, shift)
        case.note(cov=S, mu=mu, spec=spec, num=m)
        wr, kw, _ = _wrap(case, mu, S, spec, n)
    fr = wr.variance_frontier(m, **kw)
    W = np.asarray(fr.weights)
    case.check(W.shape[1] in (1, m), f"{W.shape[1]} columns for {m} requested")
    unit_ = np.trace(S) / n
    f = lambda w: float(w @ (S / unit_) @ w)
    for j in range(W.shape[1]):
        _feasible(case, W[:, j], poly, f"column {j}")
        require_optimal(case, f"column {j} (nothing to gain by more risk)", f, lambda w: 2 * (S / unit_) @ w, W[:, j], poly, _var_tol(S, f(W[:, j])))
    case.nontrivial(w0 @ S @ w0 > W[:, 0] @ S @ W[:, 0] * 1.01)


@facet("C02", quick=400, rule="2..7 assets whose best expected returns nearly tie (relative gaps 1e-9..1e-2), several variance scales: the frontier is delivered, feasible, convex between its ends and reaches the maximum return; non-trivial = not collapsed")
def nearly_tied_returns(case):
    pv = lib()
    n = case.size(2, 7)
    _, S = moments(case, n)
    S = S * case.choice([1e-4, 1e-2, 1.0]) / np.trace(S) * n
    mu = case.normal(n) * case.choice([5e-4, 1e-2, 0.1])
    o = np.argsort(-mu)
    for j in range(1, case.int(1, n - 1) + 1):
        mu[o[j]] = mu[o[0]] - abs(mu[o[0]]) * case.logfloat(1e-9, 1e-2)
    m = case.int(2, 6)
    case.note(mu=mu, cov=S, num=m)
    fr = pv.PortfolioWrapper.from_moments(mu, S).variance_frontier(m)
    W, hi = fr.weights, mu.max()
    case.check(np.all(np.isfinite(W)) and np.all(W >= -1e-6) and np.all(np.abs(W.sum(0) - 1) <= 1e-6), "infeasible weights", W=W)
    v = np.einsum("ij,ik,kj->j", W, S, W)
    big = np.trace(S) / n
    r0 = float(mu @ W[:, 0])
    if W.shape[1] < 2 or hi - r0 <= 1e-8:
        case.nontrivial(False)
        return
    case.check(W.shape == (n, m), "shape")
    case.check(mu @ W[:, -1] >= hi - 1e-6 * max(1.0, abs(hi)), "last column misses the maximum return", got=mu @ W[:, -1], want=hi)
    grid = np.linspace(r0, hi, m)
    case.check(np.all(mu @ W >= grid - 1e-6), "a column misses its target", got=mu @ W, want=grid)
    r = mu @ W
    for k in range(1, m - 1) if hi - r0 > 1e-5 else ():            # mixing the end columns is feasible, so no column may be riskier than the mix
        t = (r[-1] - r[k]) / (r[-1] - r[0]) if r[-1] > r[0] else 1.0
        mix = W[:, 0] * t + W[:, -1] * (1 - t)
        case.check(v[k] <= mix @ S @ mix * 1.02 + 2e-3 * big + 1e-6, "a column is riskier than a mixture of the ends", got=v[k], mix=mix @ S @ mix)
    case.nontrivial(True)


@facet("C03", quick=250, rule="drawn (mu, Sigma, rf below the attainable maximum, homogeneous and non-homogeneous inequality constraints, full investment)")
def max_sharpe_optimal(case):
    pv = lib()
    n = case.size(2, 6)
    mu, S = moments(case, n, hetero=False)
    spec, w0 = constraint_spec(case, n, rich=True, total_free=False)             # documented as w = y / 1'y: fully invested
    poly = Poly.from_spec(n, spec)
    hi = -poly.lp(-mu).fun
    rf = float(hi - case.float(0.02, 0.15))
    u = unit(case)
    case.note(mu=mu, cov=S, spec=spec, rf=rf, unit=u)
    G, h, A, b = pv.Constraints.from_dict(dict(spec)).to_matrices(n)
    res = pv.MeanVariance(mu * u, S * (u * u), G, h, A, b).max_sharpe(rf * u)
    w = np.asarray(res.weights, float)
    _feasible(case, w, poly, "max_sharpe")
    case.close(res.nominal_return / u, mu @ w, "reported return", rtol=1e-8, atol=1e-10)
    case.close(res.risk / u, np.sqrt(w @ S @ w), "reported volatility", rtol=1e-6, atol=1e-9)
    sr = (mu @ w - rf) / np.sqrt(w @ S @ w)
    case.check(sr > 0, "non-positive Sharpe although a portfolio beats the risk-free rate", w=w)
    # maximising SR*: (mu-rf)'v - SR*||v|| <= 0 for all feasible v (concave in v) certifies optimality
    k = sr
    f = lambda x: float(k * np.sqrt(x @ S @ x) - (mu - rf) @ x)
    grad = lambda x: k * S @ x / np.sqrt(x @ S @ x) - (mu - rf)
    require_optimal(case, f"Sharpe {sr:.6g}", f, grad, w, poly, 2e-5)
    case.nontrivial(True)
    case.event("upper bounds", "bounds" in spec)


@facet("C03", quick=400, rule="unbounded long-short problems with full investment alone, or with one extra equality: closed-form tangency portfolio when the risk-free rate is below the minimum-variance return, an error when the best Sharpe ratio is only approached by unlimited leverage; non-trivial = short positions or refused")
def unbounded_tangency(case):
    pv = lib()
    n = case.size(2, 6)
    mu, S = moments(case, n)
    A, b = [np.ones(n)], [1.0]
    if n > 2 and case.bool():                                    # a'w = c becomes homogeneous under full investment
        a = case.unit(n)
        if np.ptp(a) < 0.1:
            case.reject()
        A.append(a)
        b.append(float(case.float(-0.3, 0.3)))
    A, b = np.array(A), np.array(b)
    # in the subspace a'w = c 1'w, tangency is proportional to the projection of S^-1 (mu - rf)
    N = np.eye(n)
    if len(A) > 1:
        r = A[1] - b[1]
        N = np.linalg.svd(r[None, :])[2][1:].T
    K = N @ np.linalg.solve(N.T @ S @ N, N.T)
    g = K @ np.ones(n)
    if g.sum() <= 1e-6:
        case.reject()
    base = float(g @ mu / g.sum())
    sd = float(1 / np.sqrt(g.sum()))
    rf = base + case.choice([-1, 1]) * sd * case.float(0.1, 1.5)
    u = unit(case)
    y = K @ (mu - rf)
    case.note(mu=mu, cov=S, A=A, b=b, rf=rf, unit=u)
    o = case.perm(len(A))
    opt = pv.MeanVariance(mu * u, S * u * u, A=A[o], b=b[o])
    if np.abs(y).max() < 1e-6 or abs(y @ (mu - rf)) < 1e-6 * abs((mu - rf) @ np.linalg.solve(S, mu - rf)):
        case.reject()
    if abs(y.sum()) < 0.02 * np.abs(y).sum():
        case.reject()                                            # close to the limit
    if y.sum() < 0:
        case.raises(lambda: opt.max_sharpe(rf * u), "a Sharpe ratio that is only approached by unlimited leverage was answered", RuntimeError)
        case.event("unlimited leverage")
        return
    w = y / y.sum()
    r = opt.max_sharpe(rf * u)
    got = np.asarray(r.weights, float)
    case.close(got.sum(), 1.0, "full investment", atol=1e-6)
    case.close(A @ got, b, "equalities", atol=1e-5 * np.abs(w).sum())
    case.close(got, w, "tangency weights", atol=2e-3 * np.abs(w).sum())
    case.close((mu @ got - rf) / np.sqrt(got @ S @ got), (mu @ w - rf) / np.sqrt(w @ S @ w), "Sharpe ratio", rtol=1e-5)
    case.close(r.nominal_return / u, mu @ got, "reported return", rtol=1e-8, atol=1e-10 * np.abs(got).sum())
    case.close(r.risk / u, np.sqrt(got @ S @ got), "reported volatility", rtol=1e-6)
    case.nontrivial(w.min() < -1e-6)
