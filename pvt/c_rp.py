"""C07 C08: (relaxed) risk parity."""
import numpy as np
import pandas as pd
from scipy.optimize import minimize
from .core import facet
from .gen import constraint_spec, Poly, names, moments, corr, unit
from .c_mv import lib, _feasible


POWER = dict(requested_target=1, target_return=1, effective_target=1, max_feasible_return=1, risk_parity_return=1, achieved_return=1,
             psi=1, gamma=1, rho=1, objective=1, portfolio_variance=2, risk_contributions=2, marginal_risk=2)


def in_unit(d, u):
    """Diagnostics quoted in unit ``u`` brought back to the unit of the oracle."""
    return {k: v if v is None or k not in POWER else v / u ** POWER[k] for k, v in d.items()}


def cov(case, n, nonneg=False):
    for _ in range(3):
        C = corr(case, n)
        if not nonneg or C.min() >= 0:
            break
    if nonneg:
        C = np.where(C < 0, 0, C) if np.linalg.eigvalsh(np.where(C < 0, 0, C))[0] > 1e-3 else np.eye(n)
    vol = np.exp(case.uniform(np.log(0.03), np.log(0.5), n)) if case.bool() else case.uniform(0.05, 0.4, n)
    return np.outer(vol, vol) * C


def budgets(case, n):
    b = case.uniform(0.1, 1.0, n)
    if case.chance(0.3):
        b[case.int(0, n - 1)] *= 8
    if case.chance(0.3):                            # percentages that were rounded, or that leave a little out
        b = np.maximum(np.round(b / b.sum(), 2), 0.01) * case.choice([1.0, 1.0, 0.98, 1.02, 1.1])
    return b


@facet("C07", quick=1200, rule="drawn PD covariance (negative and positive correlations, heterogeneous volatilities), optional budgets (normalised or not)")
def risk_contributions_match_budgets(case):
    pv = lib()
    n = case.size(2, 8)
    S = cov(case, n)
    mu = case.uniform(-0.05, 0.15, n)
    b = budgets(case, n) if case.bool() else None
    scaled = b is not None and case.bool()
    arg = None if b is None else (b if scaled else b / b.sum())
    if arg is not None and case.chance(0.3):
        arg = list(arg)
    lab = names(case, n) if case.bool() else None
    u = unit(case)
    case.note(mu=mu, cov=S, budgets=arg, unit=u)
    m = pd.Series(mu * u, index=lab) if lab else mu * u
    C = pd.DataFrame(S * u * u, index=lab, columns=lab) if lab else S * u * u
    wr = pv.PortfolioWrapper.from_moments(m, C)
    ws, ret, vol, d = wr.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=0.0, target_multiplier=None, risk_budgets=arg)
    ret, vol, d = ret / u, vol / u, in_unit(d, u)
    w = np.asarray(ws, float)
    case.check(lab is None or list(ws.index) == list(lab), "labels")
    case.close(w.sum(), 1.0, "budget", atol=1e-6)
    case.check(w.min() >= -1e-7, "negative weight", w=w)
    bb = np.full(n, 1 / n) if b is None else b / b.sum()
    rc = w * (S @ w)
    var = float(w @ S @ w)
    share = rc / var
    # a solver gap eps in psi-gamma moves a share by at most ~ n * eps / psi relative
    tol = 1e-3 + 2e-6 * n / np.sqrt(var / n)
    case.check(np.all(np.abs(share - bb) <= tol * np.maximum(bb, 1 / n)), "risk contributions are not in proportion to the budgets", shares=share, want=bb, w=w)
    case.close(ret, mu @ w, "return", rtol=1e-8, atol=1e-10)
    case.close(vol, np.sqrt(var), "volatility", rtol=1e-8)
    case.close(d["portfolio_variance"], var, "diagnostic variance", rtol=1e-8)
    case.close(d["risk_contributions"], rc, "diagnostic contributions", rtol=1e-4, atol=1e-7)
    case.close(d["risk_contributions_pct"], 100 * share, "diagnostic percentages", rtol=1e-4, atol=1e-3)
    case.close(np.sum(d["risk_contributions_pct"]), 100.0, "percentages sum", atol=1e-2)
    case.close(d["marginal_risk"], S @ w, "diagnostic marginal risk", rtol=1e-4, atol=1e-7)
    case.close(d["risk_parity_return"], mu @ w, "parity return", rtol=1e-6, atol=1e-8)
    case.close(d["achieved_return"], mu @ w, "achieved return", rtol=1e-8, atol=1e-10)
    case.close(d["risk_parity_weights"], w, "parity weights", atol=1e-8)
    case.close(d["psi"], np.sqrt(var / n), "psi is the average risk", rtol=1e-3, atol=1e-6)
    case.close(d["gamma"], np.sqrt(np.min(rc / (n * bb))), "gamma is the attained floor", rtol=2e-3, atol=2e-6)
    case.check(d["target_clipped"] is False or not d["target_clipped"], "no target, yet flagged as clipped")
    case.event("negative correlation", np.min(S) < -1e-6)
    case.event("budgets", b is not None)
    case.nontrivial(np.ptp(np.diag(S)) > 1e-4 or b is not None)


def rrp_objective(S, lam, b):
    n = len(b)
    th = np.diag(S)

    def f(x):
        x = np.maximum(x, 0)
        z = np.maximum(S @ x, 0)
        return float(np.sqrt(x @ S @ x / n + lam * (th * x * x).sum()) - np.sqrt(np.min(x * z / (n * b))))
    return f


def rrp_improve(S, lam, b, poly, starts):
    """SLSQP on the smooth epigraph form (x, g): min psi(x) - g  s.t. x_i z_i >= n b_i g^2, z >= 0."""
    n = len(b)
    th = np.diag(S)
    f = rrp_objective(S, lam, b)
    best = None
    cons = [dict(type="ineq", fun=lambda y: poly.h - poly.G @ y[:n]) if poly.G.size else None,
            dict(type="eq", fun=lambda y: poly.A @ y[:n] - poly.b),
            dict(type="ineq", fun=lambda y: S @ y[:n]), dict(type="ineq", fun=lambda y: y[:n]), dict(type="ineq", fun=lambda y: y[n:]),
            dict(type="ineq", fun=lambda y: np.sqrt(np.maximum(y[:n], 0) * np.maximum(S @ y[:n], 0) + 1e-18) - np.sqrt(n * b) * y[n])]
    cons = [c for c in cons if c]
    psi = lambda y: np.sqrt(y[:n] @ S @ y[:n] / n + lam * (th * y[:n] ** 2).sum()) - y[n]
    for s in starts:
        y0 = np.r_[s, np.sqrt(max(np.min(np.maximum(s, 0) * np.maximum(S @ s, 0) / (n * b)), 0))]
        try:
            r = minimize(lambda y: 100 * psi(y), y0, constraints=cons, method="SLSQP", options=dict(maxiter=200, ftol=1e-12))
        except Exception:
            continue
        x = r.x[:n]
        if np.all(np.isfinite(x)) and poly.violation(x) <= 1e-9 and x.min() >= -1e-9 and (S @ x).min() >= -1e-9:
            if best is None or f(x) < f(best):
                best = x
    return best


def _rrp_problem(case, nmax=5):
    n = case.size(2, nmax)
    S = cov(case, n, nonneg=case.chance(0.7))
    mu = case.uniform(0.0, 0.15, n) if case.chance(0.8) else case.uniform(-0.08, 0.08, n)
    spec, w0 = constraint_spec(case, n, allow_short=False)
    if (S @ w0).min() < 1e-4:
        case.reject()
    return n, mu, S, spec, w0, Poly.from_spec(n, spec)


def _long(poly, n):
    return Poly(np.vstack([poly.G, -np.eye(n)]) if poly.G.size else -np.eye(n), np.r_[poly.h, np.zeros(n)], poly.A, poly.b)


def _check_solution(case, what, w, mu, S, lam, b, poly, psi, gamma, obj, starts):
    n = len(mu)
    f = rrp_objective(S, lam, b)
    case.close(obj, psi - gamma, f"{what}: objective is psi - gamma", rtol=1e-9, atol=1e-12)
    mine = f(w)
    case.close(obj, mine, f"{what}: reported objective vs the weights", rtol=5e-4, atol=3e-6)
    v = rrp_improve(S, lam, b, poly, starts)
    if v is None:
        case.inconclusive += 1
        return
    tol = 1e-5 + 5e-4 * abs(mine)
    if f(v) < mine - tol:
        case.fail(f"{what}: a feasible portfolio has a smaller objective ({f(v):.8g} < {mine:.8g})", returned=w, better=v)


@facet("C08", quick=600, rule="drawn covariance, constraints, regulator, explicit target (attainable, below parity, above maximum) or multiplier")
def relaxed_solution_optimal(case):
    pv = lib()
    n, mu, S, spec, w0, poly = _rrp_problem(case)
    poly = _long(poly, n)
    lam = case.choice([0.0, 0.2, 1.0]) if case.bool() else case.choice([case.float(0, 2), case.logfloat(2, 2000)])
    if case.chance(0.15):                           # nearly tied returns: parity earns almost as much as the best portfolio
        mu = case.float(0.01, 0.1) * (1 + case.choice([1e-3, 1e-2]) * case.unit(n))
    b = budgets(case, n) if case.chance(0.3) else None
    bb = np.full(n, 1 / n) if b is None else b / b.sum()
    hi = -poly.lp(-mu).fun
    lo = poly.lp(mu).fun
    # highest return compatible with non-negative marginal risks (part of the model)
    pz = Poly(np.vstack([poly.G, -S]), np.r_[poly.h, np.zeros(n)], poly.A, poly.b)
    hz = -pz.lp(-mu).fun
    mode = case.choice(["none", "target", "below", "above", "mult"])
    kw = dict(lambda_reg=float(lam), risk_budgets=b)
    req = None
    if mode == "none":
        kw.update(target_multiplier=None)
        if lam > 0:
            kw["lambda_reg"] = lam = 0.0
    elif mode == "mult":
        kw.update(target_multiplier=case.choice([0.5, 0.9, 1.0, 1.2, 1.6]))
    else:
        req = {"target": lo + (hi - lo) * case.float(0.3, 0.9), "below": lo - 0.01 + (hi - lo) * case.float(0, 0.3),
               "above": hi + case.float(0.0, 0.2)}[mode]
        kw.update(return_target=float(req))
    lab = names(case, n) if case.bool() else None
    u = unit(case)
    m = pd.Series(mu * u, index=lab) if lab else mu * u
    C = pd.DataFrame(S * u * u, index=lab, columns=lab) if lab else S * u * u
    case.note(mu=mu, cov=S, spec=spec, kw=kw, mode=mode, unit=u)
    if "return_target" in kw:
        kw["return_target"] *= u
    wr = pv.PortfolioWrapper.from_moments(m, C, constraints=dict(spec))
    ws, ret, vol, d = wr.relaxed_risk_parity_portfolio_with_diagnostics(**kw)
    ret, vol, d = ret / u, vol / u, in_unit(d, u)
    w = np.asarray(ws, float)
    case.check(lab is None or list(ws.index) == list(lab), "labels")
    _feasible(case, w, poly, "relaxed risk parity")
    case.close(ret, mu @ w, "return", rtol=1e-8, atol=1e-10)
    case.close(vol, np.sqrt(w @ S @ w), "volatility", rtol=1e-8)
    rp = np.asarray(d["risk_parity_weights"], float)
    _feasible(case, rp, poly, "risk parity baseline")
    case.close(d["risk_parity_return"], mu @ rp, "parity return", rtol=1e-8, atol=1e-10)
    if mode == "mult":
        req = kw["target_multiplier"] * max(mu @ rp, 0.0)
        case.close(d["requested_target"], req, "multiplier target", rtol=1e-6, atol=1e-9)
    eff = d["target_return"]
    p2 = poly
    if req is None:
        case.check(eff is None and not d["target_clipped"], "no target requested")
    elif eff is None:
        case.check(d["solver_warning"], "target dropped without a warning")
        case.check(req > hz - 1e-3 * (1 + abs(hz)), f"attainable target {req:.6g} was dropped (maximum {hz:.6g})")
        case.event("target dropped")
    else:
        case.check(mu @ w >= eff - 2e-6, f"effective target {eff:.6g} missed ({mu @ w:.6g})")
        same = np.isclose(eff, req, rtol=1e-8, atol=1e-10)
        case.check(bool(d["target_clipped"]) == (not same), "target_clipped flag", eff=eff, req=req)
        if req <= hz - 2e-3 * (abs(hi) + abs(hz)) - 1e-4:
            case.check(same, f"attainable target {req:.6g} replaced by {eff:.6g} (maximum {hi:.6g})")
        elif not same:
            case.check(eff <= max(req, 0) + 1e-9 or req > hi, "clipping raised the target")
        if req > hi + 1e-6 * (1 + abs(hi)):
            case.check(not same, "unattainable target not clipped")
        case.close(d["max_feasible_return"], hi, "maximum feasible return", rtol=1e-6, atol=1e-8)
        p2 = poly.add_ge(mu, eff - 1e-9)
        if mode == "mult":                          # parity attains its own return: no need to clip below it
            case.check(eff >= min(req, float(mu @ rp)) - 1e-6 * np.abs(mu).max(), f"target {req:.8g} clipped to {eff:.8g}, below the parity return {mu @ rp:.8g}")
        case.event("target binds", mu @ w < eff + 1e-6)
        case.event("clipped", not same)
    _check_solution(case, "relaxed risk parity", w, mu, S, lam, bb, p2, d["psi"], d["gamma"], d["objective"], [w, w0, rp])
    case.nontrivial(mode != "none" and n >= 3)
    case.event(mode)


@facet("C08", quick=150, rule="frontier columns compared with single solves; anchor, multiplier grid and metadata")
def rrp_frontier_matches_single(case):
    pv = lib()
    n, mu, S, spec, w0, poly = _rrp_problem(case, 4)
    lam = case.choice([0.0, 0.2, 0.7])
    anchor = case.bool()
    wr = pv.PortfolioWrapper.from_moments(mu, S, constraints=dict(spec))
    if case.bool():
        mult = [case.choice([0.0, 0.5, 1.0, 1.3, 2.0]) for _ in range(case.int(1, 3))]
        fr = wr.relaxed_risk_parity_frontier(lambda_reg=lam, target_multipliers=mult, include_risk_parity=anchor)
    else:
        k, mx = case.int(1, 4), case.choice([1.0, 1.6, 2.5])
        mult = [mx] if k == 1 else list(np.linspace(1.0, mx, k))
        fr = wr.relaxed_risk_parity_frontier(num_portfolios=k, max_multiplier=mx, lambda_reg=lam, include_risk_parity=anchor)
    case.note(mu=mu, cov=S, spec=spec, lam=lam, mult=mult, anchor=anchor)
    off = 1 if anchor else 0
    case.check(fr.weights.shape == (n, len(mult) + off), f"shape {fr.weights.shape}")
    case.close(fr.returns, mu @ fr.weights, "returns", rtol=1e-8, atol=1e-10)
    case.close(fr.risks, np.sqrt(np.einsum("ij,ik,kj->j", fr.weights, S, fr.weights)), "risks", rtol=1e-8)
    if anchor:
        w, *_ = wr.relaxed_risk_parity_portfolio(lambda_reg=0.0, target_multiplier=None)
        case.close(fr.weights[:, 0], np.asarray(w), "anchor column", atol=1e-9)
        case.check(fr.metadata[0]["lambda_reg"] == 0.0 and fr.metadata[0]["target_multiplier"] is None, "anchor metadata")
    for j, m in enumerate(mult):
        w, r, v, d = wr.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, target_multiplier=m)
        md = fr.metadata[j + off]
        case.close(fr.weights[:, j + off], np.asarray(w), f"column for multiplier {m}", atol=1e-9)
        case.close(md["target_multiplier"], m, "metadata multiplier")
        case.close(md["lambda_reg"], lam, "metadata lambda")
        for a, bkey in (("requested_target", "requested_target"), ("effective_target", "target_return"), ("objective", "objective"),
                        ("psi", "psi"), ("gamma", "gamma"), ("rho", "rho")):
            if md[a] is None or d[bkey] is None:
                case.check(md[a] is None and d[bkey] is None, f"metadata {a}")
            else:
                case.close(md[a], d[bkey], f"metadata {a}", rtol=1e-6, atol=1e-9)
    case.nontrivial(len(mult) >= 2)


@facet("C08", quick=500, rule="the optimiser class itself on any few rows (caps, floors, sums of some assets, equalities, with or without a budget row), any regulator, budgets and target: long-only, fully invested, rows and reported target met, maximum return by an independent LP, objective not improvable; non-trivial = rows beyond the budget")
def optimiser_class_optimal(case):
    from pyvallocation.optimization import RelaxedRiskParity
    n = case.size(2, 5)
    S = cov(case, n, nonneg=case.chance(0.8))
    mu = case.uniform(0.0, 0.15, n) if case.chance(0.7) else case.uniform(-0.1, 0.1, n)
    w0 = np.maximum(case.uniform(0.05, 1.0, n), 0)
    w0 = w0 / w0.sum()
    if (S @ w0).min() < 1e-4:
        case.reject()
    G, h, A, b = [], [], [], []
    for _ in range(case.choice([0, 1, 1, 2, 3])):
        r = np.where(case.uniform(0, 1, n) < 0.5, 1.0, 0.0) if case.bool() else case.unit(n)
        if case.chance(0.3):
            r = -np.eye(n)[case.int(0, n - 1)]
        if np.ptp(r) < 1e-6:
            continue
        G.append(r); h.append(float(r @ w0) + case.choice([0.0, 0.02, 0.1]))
    if n > 2 and case.chance(0.4):
        r = case.unit(n) if case.bool() else np.eye(n)[case.int(0, n - 1)]
        if np.ptp(r) < 0.05:
            case.reject()
        zero = case.chance(0.4)
        if zero:
            r = r - (r @ w0) / (w0 @ w0) * w0
            if np.ptp(r) < 0.05:
                case.reject()
        A.append(r); b.append(0.0 if zero else float(r @ w0))
    budget = case.chance(0.4)
    if budget:
        at = case.int(0, len(A))
        A.insert(at, np.ones(n)); b.insert(at, 1.0)
    arr = lambda M: np.array(M, float) if len(M) else None
    lam = case.choice([0.0, 0.2, 1.0, case.logfloat(0.01, 500)])
    rb = budgets(case, n) if case.chance(0.3) else None
    bb = np.full(n, 1 / n) if rb is None else rb / rb.sum()
    poly = Poly(np.vstack([np.array(G).reshape(-1, n), -np.eye(n)]), np.r_[h, np.zeros(n)], np.vstack([np.ones((1, n))] + [a[None, :] for a in A if not np.all(a == 1)]), np.r_[1.0, [x for a, x in zip(A, b) if not np.all(a == 1)]])
    hi, lo = -poly.lp(-mu).fun, poly.lp(mu).fun
    pz = Poly(np.vstack([poly.G, -S]), np.r_[poly.h, np.zeros(n)], poly.A, poly.b)
    hz = -pz.lp(-mu).fun
    target = case.choice([None, None, lo + (hz - lo) * case.float(0.2, 0.9), hi + case.float(0.0, 0.1)])
    if target is not None and hz < hi - 5e-4 * abs(hi) - 1e-6 and target > hz - 2e-3 * abs(hz):
        case.reject()                               # marginal risks are non-negative in the model: no portfolio reaches that
    lazy = case.chance(0.1)
    case.note(mu=mu, cov=S, G=G, h=h, A=A, b=b, lam=lam, budgets=rb, target=target)
    opt = RelaxedRiskParity(mu, S, arr(G), arr(h), arr(A), arr(b), risk_budgets=rb)
    r = opt.solve(lambda_reg=lam, **({} if target is None and lazy else dict(return_target=target)))
    w = np.asarray(r.weights, float)
    _feasible(case, w, poly, "relaxed risk parity")
    case.close(r.marginal_risk, S @ w, "marginal risk", rtol=1e-4, atol=1e-7)
    p2 = poly
    if target is None:
        case.check(r.target_return is None and r.max_return is None, "target reported without a request")
    else:
        case.close(r.max_return, hi, "maximum feasible return", rtol=1e-6, atol=1e-8)
        case.check(mu @ w >= r.target_return - 2e-6, "effective target missed")
        if target <= hi - 1.01e-3 * abs(hi) - 1e-8:
            case.close(r.target_return, target, "attainable target replaced", rtol=1e-9)
        else:
            case.check(hi - 2e-3 * abs(hi) - 1e-7 <= r.target_return <= hi + 1e-7, f"clipped target {r.target_return:.6g} is not next to the maximum {hi:.6g}")
        p2 = poly.add_ge(mu, r.target_return - 1e-9)
    case.close(r.rho, np.sqrt(lam * (np.diag(S) * w * w).sum()) if lam > 0 else r.rho, "regulator slack", rtol=5e-3, atol=1e-4)
    _check_solution(case, "relaxed risk parity class", w, mu, S, lam, bb, p2, r.psi, r.gamma, r.objective, [w, w0])
    case.nontrivial(bool(G) or len(A) > budget)
    case.event("no budget row but equalities", bool(A) and not budget)
    case.event("target", target is not None)
