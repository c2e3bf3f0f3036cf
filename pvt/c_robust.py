"""C06: robust (mean-uncertainty) optimisation."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import constraint_spec, Poly, names, moments, unit
from .oracle import require_optimal
from .c_mv import lib, _feasible, _problem


def norm(S, w):
    return float(np.sqrt(max(w @ S @ w, 0.0)))


def pen_obj(mu, S, lam):
    f = lambda x: float(-mu @ x + lam * norm(S, x))
    g = lambda x: -mu + lam * (S @ x) / max(norm(S, x), 1e-300)
    return f, g


def tol_of(mu, S, lam, w):
    return 2e-6 * (1 + abs(mu @ w) + lam * norm(S, w)) + 1e-6 * lam


def _wrapper(case, mu, S, spec, n, u=1.0):
    pv = lib()
    mu, S = mu * u, S * (u * u)
    lab = names(case, n) if case.bool() else None
    m = pd.Series(mu, index=lab) if lab else mu
    C = pd.DataFrame(S, index=lab, columns=lab) if lab else S
    if case.bool():
        return pv.PortfolioWrapper.from_moments(m, C, constraints=dict(spec)), {}, lab
    return pv.PortfolioWrapper.from_moments(m, C), dict(constraints=dict(spec)), lab


@facet("C06", quick=800, rule="drawn (mu, S, constraints, lambda grid incl. 0 and repeats); every column certified for its own lambda")
def lambda_frontier_optimal(case):
    n, mu, S, spec, w0, poly = _problem(case)
    u = unit(case)
    wr, kw, lab = _wrapper(case, mu, S, spec, n, u)
    mode = case.int(0, 2)
    if mode == 0:
        m, mx = case.int(1, 5), case.choice([2.0, 0.5, 5.0, 1.0])
        want = [mx] if m == 1 else list(np.linspace(0, mx, m))
        fr = wr.robust_lambda_frontier(num_portfolios=m, max_lambda=mx, **kw)
    else:
        want = [float(case.choice([0.0, 0.1, 1.0, 3.0])) if case.bool() else case.float(0, 4) for _ in range(case.int(1, 4))]
        fr = wr.robust_lambda_frontier(lambdas=want, **kw)
    case.note(mu=mu, S=S, spec=spec, lambdas=want, unit=u)
    W, ret, risk = fr.weights, np.asarray(fr.returns) / u, np.asarray(fr.risks) / u
    case.check(W.shape == (n, len(want)), f"shape {W.shape}")
    got = [d["lambda"] for d in fr.metadata]
    case.close(sorted(got), sorted(want), "lambda grid")
    case.check(np.all(np.diff(risk) >= -1e-9), "not sorted by estimation risk", risks=risk)
    case.close(ret, mu @ W, "returns", rtol=1e-8, atol=1e-10)
    case.close(risk, [norm(S, W[:, j]) for j in range(len(want))], "estimation risk vs uncertainty norm of the weights", rtol=2e-4, atol=2e-6)
    case.check(list(fr.asset_names or []) == list(lab or []), "asset names")
    for j, lam in enumerate(got):
        w = W[:, j]
        _feasible(case, w, poly, f"lambda={lam:.4g}")
        f, g = pen_obj(mu, S, lam)
        require_optimal(case, f"worst-case mean at lambda={lam:.6g}", f, g, w, poly, tol_of(mu, S, lam, w))
    case.nontrivial(n >= 2 and any(l > 0 for l in want))


@facet("C06", quick=500, rule="single solves through the optimiser class with random penalties")
def lambda_single_optimal(case):
    pv = lib()
    n, mu, S, spec, w0, poly = _problem(case)
    lam = case.choice([0.0, 0.5, 2.0, 10.0]) if case.bool() else case.logfloat(1e-3, 30)
    u = unit(case)
    case.note(mu=mu, S=S, spec=spec, lam=lam, unit=u)
    G, h, A, b = pv.Constraints.from_dict(dict(spec)).to_matrices(n)
    res = pv.RobustOptimizer(mu * u, S * (u * u), G, h, A, b).solve_lambda_variant(lam)
    w = np.asarray(res.weights, float)
    _feasible(case, w, poly, "solve_lambda_variant")
    case.close(res.nominal_return / u, mu @ w, "nominal return", rtol=1e-8, atol=1e-10)
    case.close(res.risk / u, norm(S, w), "reported radius", rtol=2e-4, atol=2e-6)
    f, g = pen_obj(mu, S, lam)
    require_optimal(case, f"worst-case mean at lambda={lam:.6g}", f, g, w, poly, tol_of(mu, S, lam, w))
    case.nontrivial(n >= 2 and lam > 0)


def capped_gap(mu, S, gam, kappa, w, poly):
    """Certified suboptimality of w in min -mu'x + gam||x|| s.t. x in poly, ||x|| <= kappa (Lagrangian + Frank-Wolfe)."""
    nw = norm(S, w)
    best = np.inf

    def cert(nu):
        _, g = pen_obj(mu, S, gam + nu)
        gr = g(w)
        r = poly.lp(gr)
        if r.status != 0:
            return np.inf
        return float(gr @ w - r.fun) + nu * max(kappa - nw, 0.0)
    grid = np.r_[0.0, np.logspace(-4, 2.5, 40)]
    vals = [cert(x) for x in grid]
    i = int(np.argmin(vals))
    lo, hi = grid[max(i - 1, 0)], grid[min(i + 1, len(grid) - 1)]
    from scipy.optimize import minimize_scalar
    r = minimize_scalar(cert, bounds=(lo, hi), method="bounded", options=dict(xatol=1e-10))
    return min(vals[i], r.fun)


@facet("C06", quick=700, rule="squared-norm cap drawn between the least attainable and above the unconstrained optimum; non-trivial = cap binds")
def gamma_capped_optimal(case):
    n, mu, S, spec, w0, poly = _problem(case)
    gam = case.choice([0.0, 0.1, 0.5, 2.0])
    # smallest attainable norm (upper bound from the witness) and largest interesting norm
    from scipy.optimize import minimize
    cons = [dict(type="ineq", fun=lambda x: poly.h - poly.G @ x)] if poly.G.size else []
    cons += [dict(type="eq", fun=lambda x: poly.A @ x - poly.b)] if poly.A.size else []
    m = minimize(lambda x: x @ S @ x, w0, jac=lambda x: 2 * S @ x, constraints=cons, method="SLSQP", options=dict(ftol=1e-14, maxiter=300))
    x0 = m.x if poly.violation(m.x) < 1e-9 else w0
    lo = norm(S, x0)
    top = poly.lp(-mu).x
    hi = max(norm(S, top), lo * 1.2)
    kappa = lo + (hi - lo) * case.choice([0.1, 0.3, 0.6, 0.9, 1.5]) + 1e-3
    u = unit(case)
    case.note(mu=mu, S=S, spec=spec, gamma_mu=gam, cap=kappa ** 2, unit=u)
    wr, kw, lab = _wrapper(case, mu, S, spec, n, u)
    ws, ret, rsq = wr.solve_robust_gamma_portfolio(gam, float((kappa * u) ** 2), **kw)
    ret, rsq = ret / u, rsq / (u * u)
    w = np.asarray(ws, float)
    case.check(lab is None or list(ws.index) == list(lab), "labels")
    _feasible(case, w, poly, "solve_robust_gamma_portfolio")
    nw = norm(S, w)
    case.check(nw <= kappa + 2e-6, f"uncertainty cap exceeded ({nw ** 2:.8g} > {kappa ** 2:.8g})", w=w)
    case.close(ret, mu @ w, "nominal return", rtol=1e-8, atol=1e-10)
    case.close(rsq, nw ** 2, "reported squared radius", rtol=5e-4, atol=2e-6)
    tol = 5e-6 * (1 + abs(mu @ w) + gam * nw)
    gap = capped_gap(mu, S, gam, kappa, w, poly)
    if gap > tol:
        f, g = pen_obj(mu, S, gam)
        cap = [(lambda x: kappa ** 2 - x @ S @ x, lambda x: -2 * S @ x)]
        require_optimal(case, f"capped worst-case mean (gamma={gam})", f, g, w, poly, tol, extra_ineq=cap)
    case.event("cap binds", nw > kappa - 1e-4)
    case.nontrivial(nw > kappa - 1e-3)
