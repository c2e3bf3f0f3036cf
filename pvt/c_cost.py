"""C11: trading costs."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, Poly, names, scenarios, probs, unit
from .oracle import require_optimal
from .c_mv import lib, _feasible, _problem, _var_tol, _target
from .c_cvar import resolvable, min_cvar_lp, cvar_of
from .c_robust import norm


def _holdings(case, n, w0):
    """Current holdings: a feasible interior point, any point of the simplex, or arbitrary."""
    k = case.int(0, 3)
    if k == 0:
        return w0.copy()
    if k == 1:
        e = np.zeros(n)
        e[case.int(0, n - 1)] = 1.0
        return e
    if k == 2:
        return np.zeros(n)
    return np.round(case.uniform(-0.2, 0.8, n), 2)


def _coeffs(case, n, lo, hi):
    c = np.exp(case.uniform(np.log(lo), np.log(hi), n))
    if case.chance(0.3):
        c[case.int(0, n - 1)] = 0.0
    if case.chance(0.15):
        c = np.full(n, c[0])
    return c


def _costs(case, lab, w0, kw):
    """TransactionCosts with arrays or (shuffled) labelled series."""
    pv = lib()
    n = len(w0)

    def form(x):
        if lab is None or case.bool():
            return np.array(x)
        p = case.perm(n)
        return pd.Series(x, index=lab).iloc[p]
    return pv.TransactionCosts(initial_weights=form(w0), **{k: form(v) for k, v in kw.items()})


def _route(case, dist, spec, costs):
    """Costs at construction or per call."""
    pv = lib()
    if case.bool():
        case.event("ctor")
        return pv.PortfolioWrapper(dist, constraints=dict(spec), costs=costs), {}
    case.event("per call")
    return pv.PortfolioWrapper(dist, constraints=dict(spec)), dict(costs=costs)


@facet("C11", quick=700, rule="drawn problem, holdings and quadratic coefficients (some zero); variance plus impact certified minimal, with target and along the frontier; non-trivial = cost moves the optimum")
def quadratic_costs_exact(case):
    pv = lib()
    n, mu, S, spec, wi, poly = _problem(case)
    w0 = _holdings(case, n, wi)
    lam = _coeffs(case, n, 1e-3, 3.0)
    lab = names(case, n) if case.bool() else None
    u = unit(case)
    m_, C_ = mu * u, S * u * u
    d = pv.AssetsDistribution(mu=pd.Series(m_, index=lab) if lab else m_, cov=pd.DataFrame(C_, index=lab, columns=lab) if lab else C_)
    wr, kw = _route(case, d, spec, _costs(case, lab, w0, dict(market_impact_costs=lam * u * u)))
    f = lambda x: float(x @ S @ x + (x - w0) @ (lam * (x - w0)))
    g = lambda x: 2 * S @ x + 2 * lam * (x - w0)
    t, lo, hi = _target(case, mu, poly, wi)
    case.note(mu=mu, cov=S, spec=spec, w0=w0, impact=lam, target=t, unit=u)
    tol = lambda v: _var_tol(S, v) + 1e-6 * float(lam.max() * (1 + np.max(np.abs(w0))))
    mode = case.int(0, 2)
    if mode == 0:
        ws, ret, risk = wr.min_variance_at_return(t * u, **kw)
        ret, risk = ret / u, risk / u
        w = np.asarray(ws, float)
        p2 = poly.add_ge(mu, t)
        _feasible(case, w, p2, "with costs")
        case.close(ret, mu @ w, "return", atol=1e-10)
        case.close(risk, np.sqrt(w @ S @ w), "risk is the volatility, costs excluded", rtol=1e-6, atol=1e-8)
        require_optimal(case, "variance plus impact", f, g, w, p2, tol(f(w)))
    else:
        m = case.int(2, 4)
        fr = wr.variance_frontier(num_portfolios=m, **kw)
        w = fr.weights[:, 0]
        _feasible(case, w, poly, "first column")
        require_optimal(case, "variance plus impact (first column)", f, g, w, poly, tol(f(w)))
        for j in range(1, fr.weights.shape[1] - 1):
            x = fr.weights[:, j]
            span = hi - fr.returns[0] / u
            if span < 1e-3:
                break
            tj = fr.returns[0] / u + span * j / (m - 1)
            require_optimal(case, f"variance plus impact (column {j})", f, g, x, poly.add_ge(mu, tj - 1e-9), tol(f(x)))
    free = np.asarray(pv.PortfolioWrapper(d, constraints=dict(spec)).min_variance_at_return((float(lo) - 0.5) * u)[0])
    case.nontrivial(np.abs(w - free).max() > 1e-3)


@facet("C11", quick=900, rule="drawn scenarios, holdings and proportional coefficients; CVaR plus cost compared with an independent LP, single solve and frontier columns")
def proportional_costs_cvar_exact(case):
    pv = lib()
    n, T = case.size(2, 4), case.size(4, 25)
    R, mode = scenarios(case, T, n)
    p = probs(case, T)
    alpha = float(case.choice([0.05, 0.1, 0.25, 0.5]))
    spec, wi = constraint_spec(case, n)
    poly = Poly.from_spec(n, spec)
    w0 = _holdings(case, n, wi)
    c = _coeffs(case, n, 1e-4, 0.05)
    lab = names(case, n) if case.bool() else None
    u = unit(case)
    d = pv.AssetsDistribution(scenarios=pd.DataFrame(R * u, columns=lab) if lab else R * u, probabilities=p)
    wr, kw = _route(case, d, spec, _costs(case, lab, w0, dict(proportional_costs=c * u)))
    mu = p @ R
    hi, lo = -poly.lp(-mu).fun, poly.lp(mu).fun
    t = float(lo + case.choice([-0.1, 0.3, 0.6, 0.9]) * (hi - lo))
    case.note(R=R, p=p, alpha=alpha, spec=spec, w0=w0, costs=c, target=t, unit=u)
    obj = lambda x: cvar_of(R, p, x, alpha) + float(c @ np.abs(x - w0))

    def need(w, tgt, what):
        r = min_cvar_lp(R, p, alpha, poly, tgt, costs=c, w0=w0)
        if r.status != 0:
            case.inconclusive += 1
            return
        if obj(w) > r.fun + 1e-6 * (1 + abs(r.fun)):
            case.fail(f"{what}: CVaR plus costs {obj(w):.9g} but {r.fun:.9g} is attainable", returned=w, better=r.x[:n])
    if case.bool():
        ws, ret, risk = wr.min_cvar_at_return(t * u, alpha=alpha, **kw)
        ret, risk = ret / u, risk / u
        w = np.asarray(ws, float)
        _feasible(case, w, poly.add_ge(mu, t), "with costs")
        case.close(ret, mu @ w, "return", atol=1e-10)
        case.close(risk, cvar_of(R, p, w, alpha), "risk is the CVaR, costs excluded", rtol=1e-7, atol=1e-9)
        need(w, t, "min_cvar_at_return")
    else:
        m = case.int(2, 4)
        fr = resolvable(case, lambda: wr.cvar_frontier(num_portfolios=m, alpha=alpha, **kw),
                        lambda: hi - mu @ min_cvar_lp(R, p, alpha, poly, None, costs=c, w0=w0).x[:n], poly)
        for j in range(fr.weights.shape[1]):
            w = fr.weights[:, j]
            _feasible(case, w, poly, f"column {j}")
            span = hi - fr.returns[0] / u
            if j and span < 1e-4:               # targets closer together than the solver resolves
                break
            tj = None if j == 0 else fr.returns[0] / u + span * j / (fr.weights.shape[1] - 1) - 1e-11
            need(w, tj, f"column {j}")
    r0 = min_cvar_lp(R, p, alpha, poly, None)
    case.nontrivial(r0.status == 0 and np.abs(r0.x[:n] - w).max() > 1e-4)


@facet("C11", quick=400, rule="drawn robust problem with proportional coefficients; worst-case loss plus cost certified minimal in a lifted trade space")
def proportional_costs_robust_exact(case):
    pv = lib()
    n, mu, S, spec, wi, poly = _problem(case, nmax=4)
    w0 = _holdings(case, n, wi)
    c = _coeffs(case, n, 1e-3, 0.1)
    lab = names(case, n) if case.bool() else None
    u = unit(case)
    m_, C_ = mu * u, S * u * u
    d = pv.AssetsDistribution(mu=pd.Series(m_, index=lab) if lab else m_, cov=pd.DataFrame(C_, index=lab, columns=lab) if lab else C_)
    wr, kw = _route(case, d, spec, _costs(case, lab, w0, dict(proportional_costs=c * u)))
    lam = case.choice([0.0, 0.3, 1.0, 3.0])
    case.note(mu=mu, S=S, spec=spec, w0=w0, costs=c, lam=lam, unit=u)
    mode = case.int(0, 1)
    if mode == 0:
        fr = wr.robust_lambda_frontier(lambdas=[lam], **kw)
        w, ret = fr.weights[:, 0], fr.returns[0] / u
    else:
        ws, ret, rsq = wr.solve_robust_gamma_portfolio(lam, 100.0 * u * u, **kw)       # cap far away
        w, ret = np.asarray(ws, float), ret / u
    _feasible(case, w, poly, "with costs")
    case.close(ret, mu @ w, "nominal return excludes costs", rtol=1e-8, atol=1e-10)
    # lift to (w, u+, u-) so that the objective is smooth
    Z = np.zeros
    G = np.vstack([np.hstack([poly.G, Z((len(poly.h), 2 * n))]), np.hstack([Z((2 * n, n)), -np.eye(2 * n)])])
    h = np.r_[poly.h, Z(2 * n)]
    A = np.vstack([np.hstack([poly.A, Z((len(poly.b), 2 * n))]), np.hstack([np.eye(n), -np.eye(n), np.eye(n)])])
    b = np.r_[poly.b, w0]
    lift = Poly(G, h, A, b)
    x = np.r_[w, np.maximum(w - w0, 0), np.maximum(w0 - w, 0)]
    cc = np.r_[c, c]
    f = lambda z: float(-mu @ z[:n] + lam * norm(S, z[:n]) + cc @ z[n:])
    g = lambda z: np.r_[-mu + lam * (S @ z[:n]) / max(norm(S, z[:n]), 1e-12), cc]
    tol = 4e-6 * (1 + abs(mu @ w) + lam * norm(S, w) + float(c @ np.abs(w - w0))) + 1e-6 * lam
    require_optimal(case, f"worst-case loss plus costs (lambda={lam})", f, g, x, lift, tol)
    case.nontrivial(np.abs(w - w0).max() > 1e-3)


@facet("C11", quick=350, rule="metamorphic: zero costs = no costs; holdings without coefficients = no costs; construction = per call; prohibitive costs keep feasible holdings")
def cost_limits(case):
    pv = lib()
    n = case.size(2, 5)
    mu, S = moments(case, n, hetero=False)
    spec, wi = constraint_spec(case, n)
    poly = Poly.from_spec(n, spec)
    T = 20
    R = mu + case.normal(T, n) * np.sqrt(np.diag(S))
    d = pv.AssetsDistribution(scenarios=R, mu=mu, cov=S)
    lab = None
    model = case.choice(["mv", "cvar", "robust"])
    case.note(model=model, mu=mu, cov=S, spec=spec, w0=wi)
    case.event(model)
    key = "market_impact_costs" if model == "mv" else "proportional_costs"

    def solve(ctor=None, call=None):
        w = pv.PortfolioWrapper(d, constraints=dict(spec), costs=ctor)
        kw = {} if call is None else dict(costs=call)
        if model == "mv":
            return w.variance_frontier(num_portfolios=1, **kw).weights[:, 0]
        if model == "cvar":
            return w.cvar_frontier(num_portfolios=1, alpha=0.25, **kw).weights[:, 0]
        return w.robust_lambda_frontier(lambdas=[1.0], **kw).weights[:, 0]

    def value(x):
        return x @ S @ x if model == "mv" else cvar_of(R, np.full(T, 1 / T), x, 0.25) if model == "cvar" else -mu @ x + norm(S, x)
    base = solve()
    hold = np.round(case.uniform(0, 1, n), 2)
    for what, c in (("zero costs", pv.TransactionCosts(hold, **{key: np.zeros(n)})), ("holdings only", pv.TransactionCosts(hold))):
        for ctor, call in ((c, None), (None, c)):
            x = solve(ctor, call)
            _feasible(case, x, poly, what)
            case.close(value(x), value(base), f"{what}: objective differs from the cost-free optimum", rtol=2e-5, atol=3e-6)
    c = pv.TransactionCosts(hold, **{key: _coeffs(case, n, 1e-3, 0.3)})
    other = pv.TransactionCosts(np.zeros(n), **{key: np.full(n, 0.7)})
    a, b, o = solve(c), solve(None, c), solve(other, c)
    case.close(b, a, "per-call costs differ from construction costs", atol=1e-7)
    case.close(o, a, "per-call costs do not override construction costs", atol=1e-7)
    big = pv.TransactionCosts(wi, **{key: np.full(n, 1e4 if model == "mv" else 1e2)})
    x = solve(big)
    case.close(x, wi, "prohibitive costs: feasible holdings must stay", atol=2e-3 if model == "mv" else 1e-4)
    case.nontrivial(np.abs(a - base).max() > 1e-4)
