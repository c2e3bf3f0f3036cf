"""C28 C29: entropy pooling and flexible views."""
import numpy as np
import pandas as pd
from scipy.optimize import minimize, lsq_linear
from .core import facet
from .gen import names, scenarios


# ------------------------------------------------------------------ oracles
def kl(q, p):
    m = q > 0
    return float(np.sum(q[m] * np.log(q[m] / p[m])))


def dual_value(p, A, b, G, h, lam):
    """Lower bound on KL(q||p) over {A q = b, G q <= h, q a distribution}, for lam (>= 0 on the G rows)."""
    rows = np.vstack([A, G])
    c = rows - np.concatenate([b, h])[:, None]
    e = -lam @ c
    k = e.max()
    return -(k + np.log(p @ np.exp(e - k)))


def certificate(q, p, A, b, G, h):
    """Best lower bound obtainable from multipliers fitted to log(q/p); KL(q) minus it bounds the suboptimality."""
    flat = lambda M: M.std(axis=1) > 1e-9 * np.abs(M).max(axis=1, initial=0.0)
    if len(A):
        A, b = A[flat(A)], b[flat(A)]
    if len(G):
        G, h = G[flat(G)], h[flat(G)]
    rows = np.vstack([A, G])
    if not len(rows):
        return 0.0
    s = rows.std(axis=1)
    m = rows.mean(axis=1)
    X = ((rows - m[:, None]) / s[:, None]).T
    qq = np.maximum(q, 1e-300)
    w = np.sqrt(qq)
    active = np.concatenate([np.ones(len(A), bool), (h - G @ q) <= 1e-5 * np.maximum(G.std(axis=1), 1e-300)]) if len(G) else np.ones(len(A), bool)
    lo = np.concatenate([np.full(len(A), -np.inf), np.zeros(len(G))])
    D = np.column_stack([-np.ones(len(q)), -X[:, active]]) * w[:, None]
    fit = lsq_linear(D, np.log(qq / p) * w, bounds=(np.append(-np.inf, lo[active]), np.inf), tol=1e-14, lsq_solver="exact")
    lam = np.zeros(len(rows))
    lam[active] = fit.x[1:]
    lam = np.where(np.arange(len(rows)) >= len(A), np.maximum(lam, 0), lam) / s
    return dual_value(p, A, b, G, h, lam)


def reference(p, A, b, G, h):
    """Independent entropy pooling: standardised log-partition dual, L-BFGS-B to tight tolerance."""
    rows = np.vstack([A, G])
    rhs = np.concatenate([b, h])
    if not len(rows):
        return p
    m = rows @ p
    s = np.sqrt(((rows - m[:, None]) ** 2) @ p)
    keep = s > 1e-12 * np.abs(rows).max(axis=1)
    X = (rows - m[:, None])[keep] / s[keep, None]
    r = ((rhs - m)[keep]) / s[keep]
    lo = np.concatenate([np.full(len(A), -np.inf), np.zeros(len(G))])[keep]
    if not len(X):
        return p

    def f(l):
        e = -l @ (X - r[:, None])
        k = e.max()
        w = p * np.exp(e - k)
        z = w.sum()
        return k + np.log(z), -(X @ w) / z + r

    best = minimize(f, np.zeros(len(r)), jac=True, method="L-BFGS-B", bounds=[(a if np.isfinite(a) else None, None) for a in lo],
                    options=dict(ftol=0, gtol=1e-11, maxiter=5000, maxfun=20000))
    e = -best.x @ X
    q = p * np.exp(e - e.max())
    return q / q.sum()


def prior(case, S):
    mode = case.choice(["uniform", "random", "spiky"])
    if mode == "uniform":
        p = np.ones(S)
    elif mode == "random":
        p = case.uniform(0.2, 1.0, S)
    else:
        p = case.uniform(0.0, 1.0, S) ** 4 + 1e-3
    return p / p.sum()


def wanted(case, p):
    """A strictly positive distribution the views will be read from (so that they are consistent)."""
    i = np.arange(len(p))
    t = np.exp(case.float(0.05, 1.5) * (case.normal(len(p)) + case.choice([0.0, 0.5]) * np.cos(1 + case.int(1, 9) * i)))
    q = p * t
    return q / q.sum()


def view_rows(case, k, S):
    out = []
    for _ in range(k):
        kind = case.choice(["normal", "coarse", "heavy", "indicator", "square"])
        z = case.normal(S)
        sc = case.logfloat(1e-4, 1e2)
        if kind == "coarse":
            z = np.round(z)
        elif kind == "heavy":
            z = np.sign(z) * np.abs(z) ** 2
        elif kind == "indicator":
            z, sc = (z <= case.float(-1, 1)).astype(float), 1.0
        elif kind == "square":
            z = z ** 2
        if kind in ("normal", "coarse") and case.bool():
            z = z + (case.float(-20, 20) if case.chance(0.85) else case.choice([-3e4, 3e4, 1e6]))      # price levels: little spread, large values
        out.append(z * sc)
    return np.array(out).reshape(k, S)


@facet("C28", quick=1200, rule="3..60 scenarios, uniform/random/spiky priors, 0..3 equality and 0..3 inequality views of scales 1e-4..1e2 read from a hidden distribution (slack zero to large, duplicates): KL(q) minus a dual lower bound built from fitted multipliers <= 1e-7, views met to 1e-5 of their spread, both optimisers agree, permutation follows; non-trivial = some view moves the prior")
def pooling_is_optimal(case):
    from pyvallocation.views import entropy_pooling
    S = case.size(3, 60)
    p = prior(case, S)
    q0 = wanted(case, p) if case.chance(0.85) else p
    k, m = case.int(0, min(3, S - 1)), case.int(0, 3)
    A, G = view_rows(case, k, S), view_rows(case, m, S)
    if k and case.chance(0.15):
        A = np.vstack([A, A[0] * case.choice([1.0, -2.0, 0.5])])           # redundant but consistent
    b = A @ q0
    spread = np.maximum(G.std(axis=1), 1e-9 * np.abs(G).max(axis=1, initial=0.0) + 1e-300)
    h = G @ q0 + spread * np.array([case.choice([0.0, 0.01, 0.2, 1.0]) for _ in range(m)])
    method = case.choice([None, "TNC", "L-BFGS-B"])
    case.note(prior=p, A=A, b=b, G=G, h=h, method=method)
    one = np.ones((1, S))
    with_sum = case.chance(0.8) or not k
    Ax, bx = (np.vstack([A, one]), np.append(b, 1.0)) if with_sum else (A, b)
    kw = {} if not m else dict(G=G, h=h if case.bool() else h.reshape(-1, 1))
    shape = (lambda v: v) if case.bool() else (lambda v: v.reshape(-1, 1))
    call = lambda method: entropy_pooling(shape(p), Ax, shape(bx), method=method, **kw) if method else entropy_pooling(shape(p), Ax, shape(bx), **kw)
    out = call(method)
    case.check(isinstance(out, np.ndarray) and out.shape == (S, 1), f"posterior shape {np.shape(out)}")
    q = out.ravel()
    case.check(np.all(np.isfinite(q)) and np.all(q >= 0), "posterior not a distribution", q=q)
    case.close(q.sum(), 1.0, "posterior sum", atol=1e-10)
    sA = np.maximum(A.std(axis=1), 1e-9 * np.abs(A).max(axis=1, initial=0.0) + 1e-300)
    if len(A):
        case.check(np.all(np.abs(A @ q - b) <= 1e-5 * sA), "an equality view is missed", got=A @ q, want=b)
    if m:
        case.check(np.all(G @ q - h <= 1e-5 * spread), "an inequality view is missed", got=G @ q, limit=h)
    bound = certificate(q, p, A, b, G, h)
    case.check(kl(q, p) - bound <= 1e-7 + 1e-4 * bound, f"relative entropy {kl(q, p):.9g} exceeds the attainable minimum {bound:.9g}", q=q)
    case.check(kl(q, p) <= kl(q0, p) * (1 + 1e-4) + 1e-6, "the hidden consistent distribution is closer to the prior")
    held = (not len(A) or np.all(np.abs(A @ p - b) <= 1e-12 * sA)) and (not m or np.all(G @ p <= h))
    if held:
        case.close(q, p, "views already satisfied changed the prior", rtol=1e-6, atol=1e-9)
    other = call("L-BFGS-B" if method in (None, "TNC") else "TNC").ravel()
    case.check(np.abs(other - q).sum() <= 1e-3, "the two optimisers disagree", tnc=q, lbfgs=other)
    s = case.perm(S)
    kw2 = dict(G=G[:, s], h=h) if m else {}
    moved = entropy_pooling(p[s], Ax[:, s], bx, method=method, **kw2).ravel()
    case.check(np.abs(moved - q[s]).sum() <= 1e-3, "posterior does not follow reordered scenarios")
    case.event("equality", k > 0)
    case.event("active inequality", bool(m and np.any(h - G @ q < 1e-5 * spread)))
    case.nontrivial(np.abs(q - p).sum() > 1e-3)


@facet("C28", quick=300, rule="views no distribution satisfies (target beyond every scenario, contradictory equalities, contradictory inequalities) or invalid priors: refused; non-trivial = all")
def inconsistent_refused(case):
    from pyvallocation.views import entropy_pooling
    S = case.size(3, 40)
    p = prior(case, S)
    x = view_rows(case, 1, S)[0]
    span = np.ptp(x)
    if span < 1e-9:
        case.reject()
    q = wanted(case, p)
    how = case.choice(["above", "below", "two means", "two sides", "ge", "prior", "method", "constant", "constant bound"])
    case.event(how)
    case.note(how=how, x=x, p=p)
    gap = span * case.choice([0.01, 0.5, 3.0])
    one = np.ones(S)
    f = lambda A, b, *r: entropy_pooling(p, np.vstack([*A, one]), np.array([*b, 1.0]), *r, method=case.choice(["TNC", "L-BFGS-B"]))
    if how == "above":
        case.raises(lambda: f([x], [x.max() + gap]), "mean above every scenario")
    elif how == "below":
        case.raises(lambda: f([x], [x.min() - gap]), "mean below every scenario")
    elif how == "two means":
        case.raises(lambda: f([x, x], [q @ x, q @ x + gap]), "two different means")
    elif how == "two sides":
        case.raises(lambda: f([], [], np.vstack([x, -x]), np.array([q @ x - gap, -(q @ x + gap)])), "mean at once below and above")
    elif how == "ge":
        case.raises(lambda: f([], [], -x[None], np.array([-(x.max() + gap)])), "one-sided mean above every scenario")
    elif how.startswith("constant"):                           # a quantity that never varies has one possible mean
        c, off = case.choice([0.0, 0.01, -2.0, 50.0]), case.choice([1e-5, 1e-4, 1e-3, 0.02, 3.0]) * case.choice([1, -1])
        off *= max(1.0, abs(c))
        flat = np.full(S, c)
        if how == "constant":
            case.raises(lambda: f([flat], [c + off]), "mean of a constant away from it")
        else:
            case.raises(lambda: f([], [], -np.sign(off) * flat[None], np.array([-np.sign(off) * (c + off)])), "bound excluding a constant")
    elif how == "prior":
        bad = p.copy()
        bad[case.int(0, S - 1)] = case.choice([0.0, -0.1, np.nan, np.inf])
        case.raises(lambda: entropy_pooling(bad, np.vstack([x, one]), np.array([q @ x, 1.0])), "invalid prior", ValueError)
    else:
        case.raises(lambda: entropy_pooling(p, one[None], np.ones(1), method="SLSQP"), "unsupported optimiser", ValueError)


# ------------------------------------------------------------------ C29
def one_sided(case, value, slack):
    """(spec, lo, hi): a view satisfied by `value`."""
    import pyvallocation as pv
    from pyvallocation import views as V
    how = case.choice(["scalar", "==", ">=", "<=", ">", "<", "between", "at_least", "at_most", "above", "below"])
    lo, hi = -np.inf, np.inf
    tight = case.bool()
    d = 0.0 if tight else slack * case.float(0.05, 1.0)
    if how in ("scalar", "=="):
        return (value if how == "scalar" else case.choice([("==", value), ["==", value]])), value, value
    if how in (">=", ">", "at_least", "above"):
        lo = value - d
        spec = {">=": (">=", lo), ">": (">", lo), "at_least": V.at_least(lo), "above": V.above(lo)}[how]
    elif how in ("<=", "<", "at_most", "below"):
        hi = value + d
        spec = {"<=": ("<=", hi), "<": ("<", hi), "at_most": V.at_most(hi), "below": V.below(hi)}[how]
    else:
        lo, hi = value - d, value + slack * case.float(0.05, 1.0)
        spec = V.between(lo, hi)
    return spec, lo, hi


class Collect:
    """Linear constraints in force, in the reading of the documentation."""

    def __init__(self, S):
        self.A, self.b, self.G, self.h, self.S = [], [], [], [], S

    def add(self, row, lo, hi):
        if lo == hi:
            self.A.append(row); self.b.append(lo)
            return
        if np.isfinite(lo):
            self.G.append(-row); self.h.append(-lo)
        if np.isfinite(hi):
            self.G.append(row); self.h.append(hi)

    def mats(self):
        mk = lambda M: np.array(M, float).reshape(-1, self.S)
        return mk(self.A), np.array(self.b, float), mk(self.G), np.array(self.h, float)

    def solve(self, p):
        return reference(p, *self.mats())

    def violation(self, q):
        A, b, G, h = self.mats()
        v = 0.0
        for r, t in zip(A, b):
            v = max(v, abs(r @ q - t) / max(r.std(), 1e-6 * np.abs(r).max(), 1e-300))
        for r, t in zip(G, h):
            v = max(v, (r @ q - t) / max(r.std(), 1e-6 * np.abs(r).max(), 1e-300))
        return v


def linear_views(case, R, q, key, keep=lambda: True):
    """Random mean / relative / ranking / quantile views satisfied by q: (kwargs, Collect, checks)."""
    S, N = R.shape
    kw, C = {}, Collect(S)
    mu = R.T @ q
    sd = R.std(axis=0) + 1e-6
    if case.chance(0.6):
        if case.chance(0.15):
            kw["mean_views"] = mu.copy() if case.bool() else list(mu)
            for i in range(N):
                C.add(R[:, i], mu[i], mu[i])
        else:
            d = {}
            for _ in range(case.int(1, 3)):
                i = case.int(0, N - 1)
                j = case.int(0, N - 1)
                if N > 1 and case.chance(0.4) and i != j:
                    k, row = (key(i), key(j)), R[:, i] - R[:, j]
                else:
                    k, row = key(i), R[:, i]
                if k in d:
                    continue
                d[k], lo, hi = one_sided(case, float(row @ q), sd[i])
                C.add(row, lo, hi)
            kw["mean_views"] = d
    if N > 1 and case.chance(0.3 if N <= 4 else 0.8):
        order = [i for i in np.argsort(-mu, kind="stable")]
        m = N if case.bool() else case.int(2, N)
        idx = sorted(case.perm(N)[:m], key=lambda i: order.index(i))
        kw["rank_mean"] = [key(i) for i in idx]
        for a, b in zip(idx[:-1], idx[1:]):
            C.add(R[:, a] - R[:, b], 0.0, np.inf)
    if case.chance(0.35):
        d = {}
        for _ in range(case.int(1, 2)):
            i = case.int(0, N - 1)
            if key(i) in d:
                continue
            level = float(np.sort(R[:, i])[case.int(0, S - 2)]) + case.choice([0.0, 1e-6])
            if np.any(R[:, i] == 0.0) and case.bool():
                level = 0.0                                           # "at most nothing" includes a return of exactly nothing
            ind = (R[:, i] <= level).astype(float)
            prob = float(ind @ q)
            if not 1e-6 < prob < 1 - 1e-6:
                continue
            spec, lo, hi = one_sided(case, prob, min(prob, 1 - prob) * 0.5)
            d[key(i)] = case.choice([(level, spec), [level, spec]])
            C.add(ind, lo, hi)
        if d:
            kw["quantile_views"] = d
    return kw, C


def world(case, S=None):
    S = S or case.size(5, 50, 120)
    N = case.int(5, 8) if case.chance(0.07) else case.int(1, 4)
    R, _ = scenarios(case, S, N)
    if case.bool():
        R = R + 0.02 * np.sin(2 + np.arange(S)[:, None] * (1 + np.arange(N)))
    R = R * case.choice([1.0, 1.0, 0.1, 20.0, 0.01])
    if case.chance(0.2):
        R[case.int(0, S - 1), :] = 0.0                                    # a holiday
    p = prior(case, S)
    frame = case.chance(0.7)
    lab = names(case, N) if frame else [str(i) for i in range(N)]
    src = pd.DataFrame(R, columns=lab) if frame else R.copy()
    kw = dict(prior_risk_drivers=src)
    if case.chance(0.7):
        kw["prior_probabilities"] = p if case.bool() else pd.Series(p)
    else:
        p = np.full(S, 1.0 / S)
    alias = frame and isinstance(lab[0], int) and case.bool()
    key = (lambda i: str(lab[i])) if alias else (lambda i: lab[i])
    return S, N, R, p, frame, lab, kw, key


def moments_match(case, f, R, q, frame, lab):
    m, c = f.get_posterior()
    mu = R.T @ q
    D = R - mu
    cov = (D * q[:, None]).T @ D
    if frame:
        case.check(isinstance(m, pd.Series) and list(m.index) == list(lab), "posterior mean labels", got=m)
        case.check(isinstance(c, pd.DataFrame) and list(c.index) == list(lab) and list(c.columns) == list(lab), "posterior covariance labels")
    else:
        case.check(isinstance(m, np.ndarray) and isinstance(c, np.ndarray), "array input gave labelled posterior")
    s = np.abs(R).max() + 1e-12
    case.close(np.asarray(m), mu, "posterior mean", rtol=1e-8, atol=1e-10 * s)
    case.close(np.asarray(c), cov, "posterior covariance", rtol=1e-8, atol=1e-10 * s * s)


def distribution(case, f, S):
    out = f.get_posterior_probabilities()
    case.check(isinstance(out, np.ndarray) and out.shape == (S, 1), f"posterior probabilities shape {np.shape(out)}")
    q = out.ravel()
    case.check(np.all(np.isfinite(q)) and np.all(q >= 0), "posterior not a distribution", q=q)
    case.close(q.sum(), 1.0, "posterior sum", atol=1e-10)
    return q


@facet("C28", quick=400, rule="random scenarios and priors with mean, relative, ranking and quantile views read from a hidden distribution, given to FlexibleViewsProcessor (simultaneous or sequential): posterior certified minimal in relative entropy among those meeting the views; non-trivial = some view moves the prior")
def linear_flexible_views_optimal(case):
    import pyvallocation as pv
    S, N, R, p, frame, lab, kw, key = world(case)
    q0 = wanted(case, p)
    views, C = linear_views(case, R, q0, key)
    case.note(R=R, p=p, views=str(views))
    f = pv.FlexibleViewsProcessor(**kw, **views, sequential=case.bool())
    q = distribution(case, f, S)
    case.check(C.violation(q) <= 1e-5, f"a view is missed by {C.violation(q):.3g} of its spread")
    bound = certificate(q, p, *C.mats())
    case.check(kl(q, p) - bound <= 1e-7 + 1e-4 * bound, f"relative entropy {kl(q, p):.9g} exceeds the attainable minimum {bound:.9g}", q=q)
    case.nontrivial(np.abs(q - p).sum() > 1e-3)


@facet("C29", quick=700, rule="scenario priors with any mix of mean, relative, ranking, quantile, volatility, variance, skewness and correlation views (eleven spellings, simultaneous and sequential) read from a hidden distribution: every view holds under the posterior to 1e-5 of its spread, higher moments around the means (and variances) left by the earlier blocks; posterior moments recomputed with labels; non-trivial = two or more view kinds")
def views_hold(case):
    import pyvallocation as pv
    S, N, R, p, frame, lab, kw, key = world(case)
    q0 = wanted(case, p)
    views, C = linear_views(case, R, q0, key)
    seq = case.bool()
    blocks = []
    for kind in ("vol", "var", "skew", "corr"):
        if case.chance(0.3) and (kind != "corr" or N > 1):
            blocks.append((kind, [int(x) for x in case.perm(N)[: case.int(1, min(2, N))]] if kind != "corr" else [tuple(int(x) for x in case.perm(N)[:2])]))
    # rebuild the mean part alone
    P = mean_part(R, views, key)
    mean_q = P.solve(p) if (P.A or P.G) else p
    mu, var = moments_of(R, mean_q)
    spec_all = {}
    for kind, targets in blocks:
        if seq and (P.A or P.G):
            mu, var = moments_of(R, P.solve(p))
        d = {}
        for t in targets:
            if kind == "corr":
                i, j = t
                s = np.sqrt(var[i] * var[j])
                if s < 1e-9:
                    continue
                row, k = R[:, i] * R[:, j], (key(i), key(j))
                val, back = (row @ q0 - mu[i] * mu[j]) / s, lambda x: x * s + mu[i] * mu[j]
                ok, room = abs(val) < 0.97, 0.5 * (1 - abs(val))
            else:
                i, k = t, key(t)
                v, m = var[i], mu[i]
                if v < 1e-9:
                    continue
                if kind == "skew":
                    row = R[:, i] ** 3
                    val, back = (row @ q0 - 3 * m * v - m ** 3) / v ** 1.5, lambda x: x * v ** 1.5 + 3 * m * v + m ** 3
                    ok, room = True, 0.5
                else:
                    row = R[:, i] ** 2
                    w = row @ q0 - m * m
                    ok = w > 0.02 * v
                    w = max(w, 1e-300)
                    val, back = (w, lambda x: x + m * m) if kind == "var" else (np.sqrt(w), lambda x: x * x + m * m)
                    room = 0.5 * val
            if not ok:
                continue
            d[k], lo, hi = one_sided(case, float(val), room)
            if lo == hi:
                P.add(row, back(lo), back(lo))
            else:
                P.add(row, back(lo) if np.isfinite(lo) else lo, back(hi) if np.isfinite(hi) else hi)
        if d:
            spec_all[kind + "_views"] = d
    for r, lo, hi in quantile_rows(R, views, key):
        P.add(r, lo, hi)
    case.note(R=R, p=p, views=str({**views, **spec_all}), sequential=seq)
    before = str({**views, **spec_all})
    f = pv.FlexibleViewsProcessor(**kw, **views, **spec_all, sequential=seq)
    case.check(str({**views, **spec_all}) == before, "the caller's views were modified")
    q = distribution(case, f, S)
    case.check(P.violation(q) <= 2e-5, f"a view is missed by {P.violation(q):.3g} of its spread", q=q)
    moments_match(case, f, R, q, frame, lab)
    if not views and not spec_all:
        case.close(q, p, "no views changed the prior", atol=1e-13)
    kinds = len(views) + len(spec_all)
    for k in list(views) + list(spec_all):
        case.event(k)
    case.nontrivial(kinds >= 2)


def moments_of(R, q):
    mu = R.T @ q
    return mu, ((R - mu) ** 2).T @ q


def unkey(R, key):
    back = {key(i): i for i in range(R.shape[1])}
    return lambda k: back[k]


def parse(spec):
    """Independent reading of a view value: (lo, hi)."""
    if isinstance(spec, (tuple, list)):
        op = spec[0]
        if op == "between":
            return spec[1], spec[2]
        v = spec[1]
        return {"==": (v, v), ">=": (v, np.inf), ">": (v, np.inf), "<=": (-np.inf, v), "<": (-np.inf, v)}[op]
    return float(spec), float(spec)


def mean_part(R, views, key):
    C = Collect(len(R))
    ix = unkey(R, key)
    mv = views.get("mean_views", {})
    if not isinstance(mv, dict):
        mv = {key(i): v for i, v in enumerate(mv)}
    for k, v in mv.items():
        row = R[:, ix(k[0])] - R[:, ix(k[1])] if isinstance(k, tuple) else R[:, ix(k)]
        C.add(row, *parse(v))
    r = views.get("rank_mean") or []
    for a, b in zip(r[:-1], r[1:]):
        C.add(R[:, ix(a)] - R[:, ix(b)], 0.0, np.inf)
    return C


def quantile_rows(R, views, key):
    ix = unkey(R, key)
    for k, (level, spec) in views.get("quantile_views", {}).items():
        yield ((R[:, ix(k)] <= level).astype(float), *parse(spec))


@facet("C29", quick=150, rule="one or two CVaR views (tail probability 0.02..0.6, given or default 5%) alone or together with mean, ranking and quantile views, all read from a hidden distribution: the exact posterior CVaR at the stated tail probability equals the target and every other view still holds; non-trivial = other views present or two CVaR views")
def cvar_views_hold(case):
    import pyvallocation as pv
    S = case.size(8, 45)
    S, N, R, p, frame, lab, kw, key = world(case, S)
    R = R + 1e-7 * np.arange(S)[:, None] * (1 + np.abs(R).max())          # no ties: the tail is then unambiguous
    kw["prior_risk_drivers"] = pd.DataFrame(R, columns=lab) if frame else R.copy()
    q0 = wanted(case, p)
    views, C = linear_views(case, R, q0, key) if case.chance(0.6) else ({}, Collect(S))
    spec, tails = {}, []
    for i in case.perm(N)[: case.int(1, min(2, N))]:
        o = np.argsort(R[:, i])
        cum = np.cumsum(q0[o])
        ok = [s for s in range(1, S - 2) if 0.02 < cum[s] < 0.6]
        if not ok:
            continue
        s = ok[case.int(0, len(ok) - 1)]
        g = float(cum[s])
        t = float(q0[o[: s + 1]] @ R[o[: s + 1], i] / g)
        spec[key(int(i))] = (t, g) if case.bool() else [t, g]
        tails.append((int(i), o, t, g))
    if not spec:
        case.reject()
    case.note(R=R, p=p, views=str(views), cvar=str(spec))
    try:
        f = pv.FlexibleViewsProcessor(**kw, **views, cvar_views=spec, sequential=case.bool())
    except RuntimeError:
        # thresholds are searched one CVaR view at a time: two of them may be refused (never silently missed)
        case.check(len(spec) > 1, "a consistent CVaR view was refused")
        case.event("two CVaR views refused")
        case.nontrivial(False)
        return
    q = distribution(case, f, S)
    for i, o, t, g in tails:
        c = np.append(0.0, np.cumsum(q[o]))
        w = np.diff(np.minimum(c, g))
        sd = R[:, i].std()
        got = w @ R[o, i] / g
        case.check(abs(got - t) <= 1e-4 * sd, f"CVaR view missed: posterior {got:.8g}, target {t:.8g} at tail {g:.6g}", q=q)
    case.check(C.violation(q) <= 2e-5, f"a view is missed by {C.violation(q):.3g} of its spread once CVaR views are added", q=q)
    moments_match(case, f, R, q, frame, lab)
    case.event("two CVaR views", len(spec) > 1)
    case.nontrivial(bool(views) or len(spec) > 1)


@facet("C29", quick=150, rule="priors given as moments (labelled in any order, seeds, custom generators of both signatures): scenarios have the stated moments (6 sigma) or are exactly the generator's, equal seeds give equal scenarios, views hold and moments are recomputed from them; non-trivial = views present")
def moment_priors(case):
    import pyvallocation as pv
    from .gen import moments, unit
    N = case.size(1, 4)
    mu, cov = moments(case, N)
    u = unit(case)
    mu, cov = mu * u, cov * (u * u)
    n = case.int(400, 1500)
    lab = names(case, N)
    kind = case.choice(["array", "both", "mean", "cov"])
    o = case.perm(N)
    m = pd.Series(mu, index=lab) if kind in ("both", "mean") else mu
    c = cov
    if kind == "both":
        c = pd.DataFrame(cov, index=lab, columns=lab).iloc[o, o]
    elif kind == "cov":
        c = pd.DataFrame(cov, index=lab, columns=lab)
    frame = kind != "array"
    lab = lab if frame else [str(i) for i in range(N)]
    seed = case.int(0, 10 ** 6)
    kw = dict(prior_mean=m, prior_cov=c, num_scenarios=n, random_state=seed)
    gen = case.choice([None, None, "four", "three"])
    z = np.random.default_rng(seed + 1).standard_normal((n, N))
    if gen == "four":
        kw["distribution_fn"] = lambda a, b, k, r: a + z * np.sqrt(np.diag(b))
    elif gen == "three":
        kw["distribution_fn"] = lambda a, b, k: a + z * np.sqrt(np.diag(b))
    views = {}
    if case.chance(0.7):
        i = case.int(0, N - 1)
        spec, lo, hi = one_sided(case, float(mu[i] + case.float(-0.5, 0.5) * np.sqrt(cov[i, i])), np.sqrt(cov[i, i]) * 0.2)
        views = {lab[i]: spec}
    case.note(mu=mu, cov=cov, kind=kind, n=n, seed=seed, views=str(views), generator=gen)
    f = pv.FlexibleViewsProcessor(**kw, mean_views=views)
    X = f.get_scenarios()
    if frame:
        case.check(isinstance(X, pd.DataFrame) and list(X.columns) == list(lab), "scenario labels")
    R = np.array(X, float)
    case.check(R.shape == (n, N), "scenario shape")
    sd = np.sqrt(np.diag(cov))
    if gen:             # the covariance may be regularised, by no more than its own rounding scale
        room = np.sqrt(np.diag(cov) + 2e-6 * np.trace(cov) / N) - sd
        case.check(np.all(np.abs(R - (mu + z * sd)) <= np.abs(z) * room + 1e-9 * sd), "generator output", got=R[:3], want=(mu + z * sd)[:3])
    else:
        case.check(np.all(np.abs(R.mean(axis=0) - mu) <= 6.5 * sd / np.sqrt(n)), "simulated means off", got=R.mean(axis=0))
        S2 = np.atleast_2d(np.cov(R.T, bias=True))
        tol = 7 * np.sqrt((np.outer(sd ** 2, sd ** 2) + cov ** 2) / n) + 2e-6 * np.trace(cov) / N
        case.check(np.all(np.abs(S2 - cov) <= tol), "simulated covariance off", got=S2)
        g = pv.FlexibleViewsProcessor(**kw, mean_views=views)
        case.check(np.array_equal(np.asarray(g.get_scenarios()), R) and np.allclose(g.get_posterior_probabilities(), f.get_posterior_probabilities()), "equal seeds differ")
    q = distribution(case, f, n)
    if views:
        x = R[:, i] @ q
        case.check(lo - 1e-5 * sd[i] <= x <= hi + 1e-5 * sd[i], "mean view missed", got=x, lo=lo, hi=hi)
    else:
        case.close(q, np.full(n, 1.0 / n), "no views changed the prior", atol=1e-15)
    moments_match(case, f, R, q, frame, lab)
    X *= 0.0                                                              # what a caller does to the scenarios handed out stays with the caller
    case.check(np.array_equal(np.asarray(f.get_scenarios(), float), R), "changing the scenarios handed out changed the processor's own")
    if kind == "both" and N > 1:
        bad = c.rename(index={lab[0]: "zz"}, columns={lab[0]: "zz"})
        case.raises(lambda: pv.FlexibleViewsProcessor(**{**kw, "prior_cov": bad}), "covariance labelled for other assets")
    case.nontrivial(bool(views))


@facet("C29", quick=250, rule="unattainable, contradictory or malformed views and priors (14 kinds) are refused; non-trivial = all")
def bad_views_refused(case):
    import pyvallocation as pv
    from pyvallocation import views as V
    S, N, R, p, frame, lab, kw, key = world(case)
    R = R + 1e-7 * np.arange(S)[:, None]
    kw["prior_risk_drivers"] = pd.DataFrame(R, columns=lab) if frame else R.copy()
    i = case.int(0, N - 1)
    k, x = key(i), R[:, i]
    lim = 1.0 + np.abs(x).max()
    g = case.choice([0.05, 0.5, 3.0]) * np.ptp(x) + 1e-3
    opts = {
        "mean above": (dict(mean_views={k: x.max() + g}), Exception),
        "mean at least above": (dict(mean_views={k: V.at_least(x.max() + g)}), Exception),
        "mean at most below": (dict(mean_views={k: V.at_most(x.min() - g)}), Exception),
        "volatility beyond range": (dict(vol_views={k: V.at_least(2 * lim)}), Exception),
        "cvar below": (dict(cvar_views={k: (x.min() - g, 0.1)}), Exception),
        "cvar above": (dict(cvar_views={k: (x.max() + g, 0.1)}), Exception),
        "quantile against mean": (dict(quantile_views={k: (float(np.sort(x)[S // 2]), 0.9999)}, mean_views={k: V.at_least(float(x.max() - 1e-4 * np.ptp(x)))}), Exception),
        "unknown label": (dict(mean_views={"nope": 0.0}), ValueError),
        "unknown pair": (dict(corr_views={("nope", k): 0.0}), ValueError),
        "NaN target": (dict(mean_views={k: np.nan}), ValueError),
        "negative volatility": (dict(vol_views={k: -0.1}), ValueError),
        "correlation above one": (dict(corr_views={(k, k): 1.5}), ValueError),
        "quantile probability": (dict(quantile_views={k: (0.0, case.choice([0.0, 1.0, 1.5, -0.1]))}), ValueError),
        "short vector": (dict(mean_views=np.zeros(N + 1)), ValueError),
        "tail probability": (dict(cvar_views={k: (float(x.mean()), case.choice([0.0, 1.0, -0.1, 1.5]))}), ValueError),
        "rank of one": (dict(rank_mean=[k]), ValueError),
        "probability length": (dict(prior_probabilities=np.full(S + 1, 1.0 / (S + 1))), ValueError),
        "zero probability": (dict(prior_probabilities=np.append(np.zeros(1), np.full(S - 1, 1.0 / (S - 1)))), ValueError),
    }
    how = case.choice(list(opts))
    case.event(how)
    extra, types = opts[how]
    case.note(R=R, p=p, how=how, views=str(extra))
    case.raises(lambda: pv.FlexibleViewsProcessor(**{**kw, **extra}, sequential=case.bool()), how, types)
    lo = case.float(-1, 1)
    case.raises(lambda: V.between(lo, lo - 0.01), "empty range", ValueError)
    case.raises(lambda: V.at_least(np.inf), "infinite target", ValueError)


@facet("C28", quick=120, rule="one CVaR view (tail probability 0.03..0.5, milder or harsher than the prior), alone or with a mean view on another driver: relative entropy is that of the best tail length, each length solved separately by another method; non-trivial = several tail lengths are possible")
def cvar_view_takes_the_least_distorting_tail(case):
    import pyvallocation as pv
    S = case.size(8, 30)
    S, N, R, p, frame, lab, kw, key = world(case, S)
    R = R + 1e-6 * np.arange(S)[:, None] * (1 + np.abs(R).max())          # no ties: the tail is then unambiguous
    kw["prior_risk_drivers"] = pd.DataFrame(R, columns=lab) if frame else R.copy()
    i = case.int(0, N - 1)
    g = case.choice([0.05, 0.1, 0.25, 0.4, case.float(0.03, 0.5)])
    o = np.argsort(R[:, i])
    x, sd = R[o, i], R[:, i].std()
    c = np.append(0.0, np.cumsum(p[o]))
    w = np.diff(np.minimum(c, g))
    t = float(w @ x / g + case.float(-0.6, 0.6) * sd)
    views = {}
    A, b, G, h = np.zeros((0, S)), np.zeros(0), np.zeros((0, S)), np.zeros(0)
    if N > 1 and case.chance(0.6):
        j = (i + 1) % N
        m = float(p @ R[:, j] + case.float(-0.2, 0.2) * R[:, j].std())
        kind = case.choice(["==", ">=", "<=", ">=", "<="])
        if kind == "==":
            views["mean_views"] = {key(j): m}
            A, b = R[None, :, j], np.array([m])
        else:                                                             # binding for the views without the tail, perhaps not with it
            sg = 1.0 if kind == "<=" else -1.0
            m = float(p @ R[:, j] - sg * case.float(0.0, 0.3) * R[:, j].std())
            views["mean_views"] = {key(j): (kind, m)}
            G, h = sg * R[None, :, j], np.array([sg * m])
    case.note(R=R, p=p, views=str(views), asset=i, cvar=t, gamma=g)
    ent = {}
    for s in range(1, S - 1):
        if not (x[0] < t - 1e-3 * sd and x[s] > t + 1e-3 * sd):
            continue
        tail = np.zeros(S)
        tail[o[: s + 1]] = 1.0
        rows = np.vstack([A, tail, tail * (R[:, i] - t)])
        rhs = np.append(b, [g, 0.0])
        q = reference(p, rows, rhs, G, h)
        gap = np.abs(rows @ q - rhs) / np.maximum(rows.std(axis=1), 1e-300)
        if len(h):
            gap = np.append(gap, (G @ q - h) / np.maximum(G.std(axis=1), 1e-300))
        if np.all(np.isfinite(q)) and gap.max() <= 1e-7:
            ent[s] = kl(q, p)
    if len(ent) < 1 or min(ent.values()) > 3:
        case.reject()
    f = pv.FlexibleViewsProcessor(**kw, **views, cvar_views={key(i): (t, g)}, sequential=case.bool() if not views else False)
    q = distribution(case, f, S)
    v = np.array([ent[s] for s in sorted(ent)])
    dips = [ent[s] for s in ent if ent[s] <= min(ent.get(s - 1, np.inf), ent.get(s + 1, np.inf))]
    allowed = max(dips)                                                   # several valleys: any of them
    got = kl(q, p)
    case.check(got <= allowed * 1.001 + 1e-6, f"relative entropy {got:.8g}, the best tail needs {v.min():.8g} (valleys {np.round(dips, 8).tolist()})", q=q, profile=v)
    case.event("several valleys", len(dips) > 1)
    case.event("with a mean view", bool(views))
    case.nontrivial(len(v) > 2)
