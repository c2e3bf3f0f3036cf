"""Optimality oracles: exhibit a strictly better feasible point, or certify that none exists."""
from __future__ import annotations
import numpy as np
from scipy.optimize import minimize, minimize_scalar


def better_point(f, grad, w, poly, tol, extra_ineq=()):
    """Search for a feasible v with f(v) < f(w) - tol.

    Returns (v, f(v)) or None; the second result says whether optimality was certified by the
    Frank-Wolfe gap (convex f): f(w) - f* <= gap."""
    fw = f(w)
    g = grad(w)
    gap = None
    v0 = None
    price = 0.0          # objective bought per unit of constraint slack (shadow prices at w)
    if not extra_ineq:
        r = poly.lp(g)
        if r.status == 0:
            gap = float(g @ w - r.fun)
            v0 = r.x
            for part in (r.ineqlin, r.eqlin):
                m = np.asarray(getattr(part, "marginals", 0.0), float)
                price += float(np.nansum(np.abs(m)))
            if gap <= tol:
                return None, True
    best = None
    cands = []
    if v0 is not None:
        t = minimize_scalar(lambda t: f(w + t * (v0 - w)), bounds=(0, 1), method="bounded", options=dict(xatol=1e-10)).x
        cands.append(w + t * (v0 - w))
    cons = []
    if poly.G.size:
        cons.append(dict(type="ineq", fun=lambda x: poly.h - poly.G @ x, jac=lambda x: -poly.G))
    if poly.A.size:
        cons.append(dict(type="eq", fun=lambda x: poly.A @ x - poly.b, jac=lambda x: poly.A))
    for fn, jac in extra_ineq:
        cons.append(dict(type="ineq", fun=fn, jac=jac))
    for start in [w] + cands[:1]:
        try:
            r = minimize(f, start, jac=grad, constraints=cons, method="SLSQP", options=dict(maxiter=300, ftol=1e-14))
            cands.append(r.x)
        except Exception:
            pass
    if v0 is not None and not extra_ineq:       # a few pairwise FW steps as a second opinion
        x = w.copy()
        for _ in range(60):
            r = poly.lp(grad(x))
            if r.status != 0:
                break
            d = r.x - x
            t = minimize_scalar(lambda t: f(x + t * d), bounds=(0, 1), method="bounded", options=dict(xatol=1e-10)).x
            x = x + t * d
        cands.append(x)
    for x in cands:
        if not np.all(np.isfinite(x)):
            continue
        bad = poly.violation(x)
        for fn, _ in extra_ineq:
            bad = max(bad, float(np.max(-np.atleast_1d(fn(x)))))
        if bad <= 1e-8 and f(x) < fw - tol - 3 * price * max(bad, 1e-9) and (best is None or f(x) < best[1]):
            best = (x, f(x))
    return best, (best is None and gap is not None and gap <= 10 * tol)


def require_optimal(case, what, f, grad, w, poly, tol, extra_ineq=()):
    best, cert = better_point(f, grad, w, poly, tol, extra_ineq)
    if best is not None:
        case.fail(f"{what}: a feasible portfolio is better (objective {best[1]:.10g} < {f(w):.10g})",
                  returned=w, better=best[0])
    if not cert:
        case.inconclusive += 1


def cvar_exact(losses, p, alpha):
    """Expected shortfall of a discrete loss distribution at tail mass alpha (worst alpha of outcomes)."""
    order = np.argsort(-losses, kind="stable")
    rem, acc = alpha, 0.0
    for i in order:
        take = min(p[i], rem)
        acc += take * losses[i]
        rem -= take
        if rem <= 1e-18:
            break
    return acc / (alpha - max(rem, 0.0)) if rem > 1e-18 else acc / alpha


def var_exact(losses, p, alpha):
    """Loss quantile: smallest l with P(L <= l) >= 1 - alpha is not unique at atoms; returns (lo, hi)."""
    o = np.argsort(-losses, kind="stable")
    cum = np.cumsum(p[o])
    return o, cum
