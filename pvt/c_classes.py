"""Optimiser classes used directly, with any mix of absent and partial constraint blocks (C01 C02 C04 C05 C06 C11)."""
import numpy as np
from .core import facet
from .gen import moments, scenarios, probs, Poly, unit
from .oracle import require_optimal
from .c_mv import lib, _feasible, _var_tol
from .c_cvar import resolvable, min_cvar_lp, cvar_of
from .c_robust import norm, pen_obj, tol_of
from .c_cost import _coeffs, _holdings


def blocks(case, n, box=None):
    """(keyword arguments, polyhedron, feasible point, boxed): blocks may be missing; rows have no special form."""
    w0 = case.uniform(-0.3, 1.0, n)
    if case.chance(0.6):
        w0 = np.maximum(w0, 0.02)
        w0 = w0 / w0.sum()
    G, h, A, b = [], [], [], []
    box = case.bool() if box is None else box
    if box:
        lo, hi = case.choice([(0.3, 0.3), (1.0, 1.0), (0.05, 2.0)])
        for i in range(n):
            G += [-np.eye(n)[i], np.eye(n)[i]]
            h += [-w0[i] + lo, w0[i] + hi]
    for _ in range(case.choice([0, 0, 1, 2])):
        r = case.unit(n) if case.bool() else np.where(case.uniform(0, 1, n) < 0.5, 1.0, 0.0)
        if np.abs(r).max() < 0.05:
            continue
        G.append(r)
        h.append(float(r @ w0) + case.choice([0.01, 0.1, 0.5]))
    if len(G) > 1:
        o = case.perm(len(G))
        G, h = [G[i] for i in o], [h[i] for i in o]
    kind = case.choice(["none", "budget", "budget", "other", "both"])
    if kind in ("budget", "both"):
        A.append(np.ones(n))
        b.append(float(w0.sum()))
    if kind in ("other", "both") and n > len(A) + 1:
        r = case.unit(n)
        if np.ptp(r) < 0.1 or np.abs(r).max() < 0.2:
            case.reject()
        A.append(r)
        b.append(float(r @ w0))
        if case.chance(0.3):                                     # a zero right-hand side
            r = r - (r @ w0) / (w0 @ w0) * w0
            if np.ptp(r) < 0.1:
                case.reject()
            A[-1], b[-1] = r, 0.0
    form = case.choice([np.array, np.array, lambda x: np.array(x).tolist()])
    kw = {}
    if G:
        kw.update(G=form(np.array(G)), h=form(np.array(h)))
    if A:
        kw.update(A=form(np.array(A)), b=form(np.array(b)))
    case.event("no inequalities", not G)
    case.event("no equalities", not A)
    return kw, Poly(np.array(G, float).reshape(-1, n), np.array(h, float), np.array(A, float).reshape(-1, n), np.array(b, float)), w0, box


def near(poly, w, r=0.5):
    """The polyhedron inside a box around ``w``: enough to judge a convex programme, and bounded."""
    n = len(w)
    return Poly(np.vstack([poly.G, np.eye(n), -np.eye(n)]), np.r_[poly.h, w + r, r - w], poly.A, poly.b)


@facet("C01", quick=500, rule="the mean-variance class on any mix of absent and partial blocks of G, h, A, b (arrays or lists, no budget row implied), with or without a target: feasible and certified variance-optimal; non-trivial = a block is missing or the budget row is")
def class_min_variance(case):
    pv = lib()
    n = case.size(2, 5)
    mu, S = moments(case, n)
    kw, poly, w0, box = blocks(case, n)
    u = unit(case)
    t = float(mu @ w0) - case.choice([0.0, 0.01, 0.1]) if case.bool() else None
    case.note(mu=mu, cov=S, kw=str(kw), target=t, unit=u)
    opt = pv.MeanVariance(mu * u, S * u * u, **kw)
    w = np.asarray(opt.efficient_portfolio(None if t is None else t * u) if case.bool() or t is not None else opt.efficient_portfolio(), float)
    p2 = poly if t is None else poly.add_ge(mu, t)
    _feasible(case, w, p2, "efficient_portfolio")
    f = lambda x: float(x @ S @ x)
    require_optimal(case, "variance", f, lambda x: 2 * S @ x, w, near(p2, w), _var_tol(S, f(w)))
    case.nontrivial(not (poly.G.size and poly.A.size and np.all(poly.A[0] == 1)))


@facet("C02", quick=250, rule="the mean-variance class's frontier on bounded blocks with or without equalities: shape, first and last point, evenly spaced returns, every column feasible and certified; non-trivial = three or more columns")
def class_variance_frontier(case):
    pv = lib()
    n, m = case.size(2, 4), case.size(1, 5)
    mu, S = moments(case, n)
    kw, poly, w0, _ = blocks(case, n, box=True)
    u = unit(case)
    case.note(mu=mu, cov=S, kw=str(kw), m=m, unit=u)
    W = np.asarray(pv.MeanVariance(mu * u, S * u * u, **kw).efficient_frontier(m))
    _frontier(case, W, mu, poly, m, lambda w, p2, what: require_optimal(case, what, lambda x: float(x @ S @ x), lambda x: 2 * S @ x, w, p2, _var_tol(S, float(w @ S @ w))), True)


def _frontier(case, W, mu, poly, m, judge, exact):
    hi = -poly.lp(-mu).fun
    ret = mu @ W
    case.check(W.shape[1] == m or W.shape[1] == 1, f"{W.shape[1]} columns for {m}")
    _feasible(case, W[:, 0], poly, "first column")
    judge(W[:, 0], poly, "first column")
    if m > 1 and hi - ret[0] > 1e-3:
        case.check(W.shape[1] == m, "frontier collapsed although returns differ")
    if W.shape[1] > 1:
        grid = np.linspace(ret[0], hi, m)
        if exact:
            case.close(ret, grid, "evenly spaced returns up to the maximum", rtol=1e-5, atol=2e-6 + (5e-3 if hi - ret[0] > 1e-3 else 1.0) * (hi - ret[0]))
        else:                                                    # a portfolio above its target may be as safe
            case.check(np.all(ret >= grid - 2e-6 - 1e-5 * abs(grid)), "a column misses its evenly spaced return", got=ret, want=grid)
            case.close(ret[-1], hi, "last column attains the maximum", rtol=1e-5, atol=2e-6)
        for j in range(1, m):
            if hi - ret[0] < 1e-3:
                break
            _feasible(case, W[:, j], poly.add_ge(mu, grid[j]), f"column {j}")
            if j < m - 1:
                judge(W[:, j], poly.add_ge(mu, grid[j] - 1e-9), f"column {j}")
    case.nontrivial(W.shape[1] > 2)


def _cvar_judge(case, R, p, alpha, c=None, w0=None):
    def judge(w, poly, what):
        r = min_cvar_lp(R, p, alpha, poly, None, costs=c, w0=w0)
        if r.status != 0:
            case.inconclusive += 1
            return
        mine = cvar_of(R, p, w, alpha) + (float(c @ np.abs(w - w0)) if c is not None else 0.0)
        T = int((p > 0).sum())
        price = float(np.nansum(np.abs(np.asarray(r.ineqlin.marginals)[T:])) + np.nansum(np.abs(np.asarray(r.eqlin.marginals)))) if poly.A.size or c is not None else float(np.nansum(np.abs(np.asarray(r.ineqlin.marginals)[T:])))
        off = max(poly.violation(r.x[: len(w)]), poly.violation(w), 2e-9)
        if mine > r.fun + 1e-6 * (1 + abs(r.fun)) + 3 * price * off:
            case.fail(f"{what}: {mine:.9g} but {r.fun:.9g} is attainable", returned=w, better=r.x[: len(w)])
    return judge


@facet("C04", quick=400, rule="the mean-CVaR class on any mix of absent and partial blocks, with or without a target: feasible and CVaR-optimal against an independent LP; non-trivial = a block is missing or the budget row is")
def class_min_cvar(case):
    pv = lib()
    n, T = case.size(2, 4), case.size(4, 25)
    R, _ = scenarios(case, T, n)
    p = probs(case, T)
    alpha = float(case.choice([0.05, 0.25, 0.5]))
    kw, poly, w0, box = blocks(case, n)
    mu = p @ R
    t = float(mu @ w0) - case.choice([0.0, 0.01]) if case.bool() else None
    p2 = poly if t is None else poly.add_ge(mu, t)
    if min_cvar_lp(R, p, alpha, p2).status != 0:
        case.reject()                                            # unbounded: arbitrage among the scenarios
    case.note(R=R, p=p, alpha=alpha, kw=str(kw), target=t)
    w = np.asarray(pv.MeanCVaR(R, p, alpha, **kw).efficient_portfolio(t), float)
    _feasible(case, w, p2, "efficient_portfolio")
    _cvar_judge(case, R, p, alpha)(w, p2, "CVaR")
    case.nontrivial(not (poly.G.size and poly.A.size and np.all(poly.A[0] == 1)))


@facet("C05", quick=250, rule="the mean-CVaR class's frontier on bounded blocks with or without equalities: evenly spaced returns up to the maximum, every column feasible and CVaR-optimal for its return; non-trivial = three or more columns")
def class_cvar_frontier(case):
    pv = lib()
    n, T, m = case.int(2, 3), case.int(4, 20), case.int(1, 4)
    R, _ = scenarios(case, T, n)
    p = probs(case, T)
    alpha = float(case.choice([0.05, 0.25, 0.5]))
    kw, poly, w0, _ = blocks(case, n, box=True)
    case.note(R=R, p=p, alpha=alpha, kw=str(kw), m=m)
    o = pv.MeanCVaR(R, p, alpha, **kw)
    W = np.asarray(resolvable(case, lambda: o.efficient_frontier(m), lambda: -poly.lp(-(p @ R)).fun - p @ R @ min_cvar_lp(R, p, alpha, poly).x[:n], poly))
    _frontier(case, W, p @ R, poly, m, _cvar_judge(case, R, p, alpha), False)


@facet("C06", quick=500, rule="the robust class on any mix of absent and partial blocks, penalty form and capped form with a slack or binding cap: feasible, radius reported, certified optimal; non-trivial = a block is missing or the budget row is")
def class_robust(case):
    pv = lib()
    n = case.size(2, 5)
    mu, S = moments(case, n)
    kw, poly, w0, box = blocks(case, n)
    k = float(np.sqrt(mu @ np.linalg.solve(S, mu)))
    lam = case.choice([0.0, 0.3, 1.0, 3.0]) if box else 1.2 * k + case.choice([0.05, 0.5])
    if not box and poly.violation(np.zeros(n)) <= 0.02:
        case.reject()                                            # the optimum is the cone's apex
    u = unit(case)
    case.note(mu=mu, S=S, kw=str(kw), lam=lam, unit=u)
    opt = pv.RobustOptimizer(mu * u, S * u * u, **kw)
    capped = case.bool()
    # a generous cap changes nothing
    r = opt.solve_gamma_variant(lam, (50 * u) ** 2) if capped else opt.solve_lambda_variant(lam)
    w = np.asarray(r.weights, float)
    _feasible(case, w, poly, "robust")
    case.close(r.nominal_return / u, mu @ w, "nominal return", rtol=1e-8, atol=1e-9)
    case.close(r.risk / u, norm(S, w), "reported radius", rtol=2e-4, atol=2e-6)
    if norm(S, w) > 1e-4:
        f, g = pen_obj(mu, S, lam)
        require_optimal(case, f"worst-case mean (lambda={lam:.5g})", f, g, w, near(poly, w), tol_of(mu, S, lam, w))
    if poly.violation(np.zeros(n)) > 0.02:                       # no feasible portfolio is that certain
        case.raises(lambda: opt.solve_gamma_variant(lam, 0.0), "a cap of zero was ignored", (RuntimeError, ValueError, ArithmeticError))
    case.nontrivial(not (poly.G.size and poly.A.size and np.all(poly.A[0] == 1)))


@facet("C11", quick=500, rule="the three optimiser classes with holdings and costs on any mix of absent and partial blocks: objective plus costs certified minimal; one of the two cost arguments alone changes nothing; non-trivial = the costs move the optimum")
def class_costs(case):
    pv = lib()
    n = case.size(2, 4)
    mu, S = moments(case, n)
    model = case.choice(["mv", "cvar", "robust"])
    kw, poly, wi, box = blocks(case, n, box=None if model == "mv" else True if case.bool() else None)
    w0 = _holdings(case, n, wi)
    case.event(model)
    if model == "mv":
        c = _coeffs(case, n, 1e-3, 3.0)
        make = lambda **x: pv.MeanVariance(mu, S, **kw, **x)
        cost, solve = "market_impact_costs", lambda o: np.asarray(o.efficient_portfolio(), float)
    elif model == "cvar":
        R, _ = scenarios(case, case.int(4, 20), n)
        p = probs(case, len(R))
        alpha = float(case.choice([0.1, 0.25, 0.5]))
        c = _coeffs(case, n, 1e-4, 0.05)
        if min_cvar_lp(R, p, alpha, poly).status != 0:
            case.reject()
        make = lambda **x: pv.MeanCVaR(R, p, alpha, **kw, **x)
        cost, solve = "proportional_costs", lambda o: np.asarray(o.efficient_portfolio(), float)
    else:
        c = _coeffs(case, n, 1e-3, 0.1)
        lam = case.choice([0.3, 1.0, 3.0]) if box else 1.2 * float(np.sqrt(mu @ np.linalg.solve(S, mu))) + 0.2
        make = lambda **x: pv.RobustOptimizer(mu, S, **kw, **x)
        cost, solve = "proportional_costs", lambda o: np.asarray(o.solve_lambda_variant(lam).weights, float)
        if poly.violation(np.zeros(n)) <= 0.02 and not box:
            case.reject()
    case.note(model=model, mu=mu, cov=S, kw=str(kw), w0=w0, costs=c)
    free = solve(make())
    for half in (dict(initial_weights=w0), {cost: c}):
        case.close(solve(make(**half)), free, f"{list(half)[0]} alone", atol=1e-7)
    w = solve(make(**{"initial_weights": w0, cost: c}))
    _feasible(case, w, poly, "with costs")
    if model == "mv":
        f = lambda x: float(x @ S @ x + (x - w0) @ (c * (x - w0)))
        require_optimal(case, "variance plus impact", f, lambda x: 2 * S @ x + 2 * c * (x - w0), w, near(poly, w), _var_tol(S, f(w)) + 1e-6 * float(c.max() * (1 + np.abs(w0).max())))
    elif model == "cvar":
        _cvar_judge(case, R, p, alpha, c, w0)(w, poly, "CVaR plus costs")
    else:
        q = near(poly, w)
        Z = np.zeros
        lift = Poly(np.vstack([np.hstack([q.G, Z((len(q.h), 2 * n))]), np.hstack([Z((2 * n, n)), -np.eye(2 * n)])]), np.r_[q.h, Z(2 * n)],
                    np.vstack([np.hstack([q.A, Z((len(q.b), 2 * n))]), np.hstack([np.eye(n), -np.eye(n), np.eye(n)])]), np.r_[q.b, w0])
        x = np.r_[w, np.maximum(w - w0, 0), np.maximum(w0 - w, 0)]
        cc = np.r_[c, c]
        if norm(S, w) > 1e-4:
            require_optimal(case, "worst-case loss plus costs", lambda z: float(-mu @ z[:n] + lam * norm(S, z[:n]) + cc @ z[n:]),
                            lambda z: np.r_[-mu + lam * (S @ z[:n]) / max(norm(S, z[:n]), 1e-12), cc], x, lift,
                            4e-6 * (1 + abs(mu @ w) + lam * norm(S, w) + float(c @ np.abs(w - w0))) + 1e-6 * lam)
    case.nontrivial(np.abs(w - free).max() > 1e-3)
