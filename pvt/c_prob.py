"""C17 C18 C19: scenario probabilities, effective scenario counts and portfolio risk measures."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import names, scenarios, probs, moments
from .oracle import cvar_exact


def _proper(case, p, n, what):
    case.check(isinstance(p, np.ndarray) and p.shape == (n,), f"{what}: shape {getattr(p, 'shape', None)} instead of ({n},)")
    case.check(np.all(np.isfinite(p)) and np.all(p >= 0), f"{what}: negative or non-finite", p=p)
    case.close(p.sum(), 1.0, f"{what}: sum", rtol=0, atol=1e-11)


@facet("C17", quick=3000, rule="1..3000 scenarios, half-lives 0.02..1e7: uniform constant; decay ratio p[t-k]/p[t] = 2^(-k/half-life) exactly, proper vectors; non-trivial = more than two scenarios")
def uniform_and_decay(case):
    from pyvallocation import probabilities as pr
    n = case.int(1, case.choice([5, 60, 3000]))
    case.nontrivial(n > 2)
    u = pr.generate_uniform_probabilities(n)
    _proper(case, u, n, "uniform")
    case.close(u, np.full(n, 1.0 / n), "uniform", rtol=1e-12)
    hl = case.choice([case.int(1, 300), case.logfloat(0.02, 1e7)])
    case.note(n=n, half_life=hl)
    p = pr.generate_exp_decay_probabilities(n, hl)
    _proper(case, p, n, "decay")
    age = np.arange(n)[::-1]
    want = 2.0 ** (-age / hl)
    case.close(p, want / want.sum(), "decay weights", rtol=1e-9, atol=1e-300)
    case.check(p[-1] == p.max(), "most recent scenario lacks the most weight")
    case.event("one half-life inside", hl < n)


@facet("C17", quick=4000, rule="random reference data, scored values, bandwidth (given or Silverman) and target (given or last): weights equal the normalised Gaussian kernel, equal distances equal weights, farther never heavier; non-trivial = >2 distinct distances")
def gaussian_kernel(case):
    from pyvallocation import probabilities as pr
    n = case.size(2, 40)
    scale = case.logfloat(1e-4, 1e4)
    loc = case.float(-5, 5) * scale
    x = loc + scale * case.normal(n)
    if case.bool():
        x = loc + scale * np.round(case.unit(n) * 3)              # ties
    kw = {}
    v = x
    if case.bool():
        m = case.int(1, 40)
        v = loc + scale * case.normal(m) * 1.5
        kw["v"] = v if case.bool() else list(v)
    if case.chance(0.6):
        h = scale * case.logfloat(0.05, 50)
        kw["h"] = h
    else:
        if np.ptp(x) == 0:                                        # no spread (up to rounding of its mean): no bandwidth
            if np.std(x, ddof=1) == 0:
                case.raises(lambda: pr.generate_gaussian_kernel_probabilities(x, **kw), "constant data without bandwidth", ValueError)
            case.nontrivial(False)
            return
        h = 1.06 * np.sqrt(((x - x.mean()) ** 2).sum() / (n - 1)) * n ** (-0.2)
        case.close(pr.silverman_bandwidth(x), h, "Silverman bandwidth", rtol=1e-9)
    if case.bool():
        t = loc + scale * case.float(-3, 3)
        kw["x_T"] = t
    else:
        t = x[-1]
    d2 = (v - t) ** 2 / (2 * h * h)
    case.note(x=x, h=h, target=t, options=sorted(kw))
    xin = x if case.bool() else (pd.Series(x) if case.bool() else list(x))
    f = lambda: pr.generate_gaussian_kernel_probabilities(xin, **kw)
    if d2.min() > 600:                                            # all weights underflow: refusing is fine
        case.nontrivial(False)
        return
    p = f()
    _proper(case, p, len(v), "kernel")
    e = np.exp(-(d2 - d2.min()))
    want = e / e.sum()
    ok = np.abs(p - want) <= 1e-9 * want + 1e-40 + 1e-9 * (d2.min() + d2) * want
    case.check(np.all(ok), "kernel weights differ from the Gaussian kernel", got=p, want=want)
    o = np.argsort(d2, kind="stable")
    case.check(np.all(np.diff(p[o]) <= 1e-12), "a farther scenario has more weight", p=p[o])
    same = np.diff(d2[o]) == 0
    case.check(np.allclose(np.diff(p[o])[same], 0, atol=1e-13), "equal distances, different weights")
    case.nontrivial(len(np.unique(np.round(d2, 9))) > 2)


@facet("C17", quick=4000, rule="random non-negative vectors of any scale, in any container: normalisation is proportional, proper vectors come back unchanged (also when off by rounding), zeros refused only under strict positivity; non-trivial = sum differs from one")
def normalisation(case):
    from pyvallocation import probabilities as pr
    n = case.size(1, 60)
    q = probs(case, n)
    mode = case.choice(["proper", "scaled", "slightly off", "counts"])
    if mode == "scaled":
        q = q * case.logfloat(1e-6, 1e6)
    elif mode == "slightly off":
        q = q * (1 + case.choice([1, -1]) * case.logfloat(1e-9, 1e-2))
    elif mode == "counts":
        q = np.array([case.int(0, 9) for _ in range(n)], dtype=float)
        if q.sum() == 0:
            q[0] = 3
    case.event(mode)
    case.nontrivial(mode != "proper")
    case.note(vector=q)
    keep = q.copy()
    box = case.choice(["array", "list", "series", "column"])
    src = dict(array=q, list=list(q), series=pd.Series(q, index=[f"s{i}" for i in range(n)]), column=q.reshape(-1, 1))[box]
    strict = case.bool()
    f = lambda: pr.normalize_probability_vector(src, strictly_positive=strict)
    g = lambda m: pr.resolve_probabilities(src, m, strictly_positive=strict)
    if strict and np.any(q == 0):
        case.raises(f, "zero entry under strict positivity", ValueError)
        case.raises(lambda: g(n), "zero entry under strict positivity", ValueError)
        return
    for p, what in ((f(), "normalize"), (g(n), "resolve")):
        _proper(case, p, n, what)
        case.close(p, q / q.sum(), what, rtol=1e-12, atol=0)
        if mode == "proper":
            case.close(p, q, f"{what}: proper vector changed", rtol=1e-14, atol=0)
    case.check(np.array_equal(q, keep), "input modified")
    case.raises(lambda: g(n + 1), "wrong length", ValueError)
    if n > 1:
        case.raises(lambda: g(n - 1), "wrong length", ValueError)
    _proper(case, pr.resolve_probabilities(None, n), n, "resolve default")
    case.close(pr.resolve_probabilities(None, n), np.full(n, 1.0 / n), "resolve default", rtol=1e-12)


@facet("C17", quick=1500, rule="one improper input per case (negative, NaN, infinite, all-zero, empty, wrong length, non-positive count, half-life or bandwidth): an error, wherever probabilities are accepted; all cases non-trivial")
def improper_inputs_rejected(case):
    from pyvallocation import probabilities as pr
    import pyvallocation as pv
    from pyvallocation.utils.performance import performance_report
    n = case.size(2, 12)
    kind = case.choice(["vector", "count", "half-life", "bandwidth"])
    case.event(kind)
    if kind == "count":
        k = -case.int(0, 5)
        case.note(kind=kind, count=k)
        case.raises(lambda: pr.generate_uniform_probabilities(k), f"uniform over {k}")
        case.raises(lambda: pr.generate_exp_decay_probabilities(k, 3), f"decay over {k}")
        return
    if kind == "half-life":
        h = case.choice([0, -1, -0.5, float("nan"), -float("inf"), -case.logfloat(1e-6, 1e3)])
        case.note(kind=kind, half_life=h)
        case.raises(lambda: pr.generate_exp_decay_probabilities(n, h), f"half-life {h}", ValueError)
        return
    if kind == "bandwidth":
        x = case.normal(n)
        h = case.choice([0.0, -1.0, float("nan"), -case.logfloat(1e-6, 1e3)])
        case.note(kind=kind, h=h)
        case.raises(lambda: pr.generate_gaussian_kernel_probabilities(x, h=h), f"bandwidth {h}", ValueError)
        case.raises(lambda: pr.generate_gaussian_kernel_probabilities(x, h=1.0, x_T=float("nan")), "NaN target", ValueError)
        y = x.copy()
        y[case.int(0, n - 1)] = np.nan
        case.raises(lambda: pr.generate_gaussian_kernel_probabilities(y, h=1.0), "NaN value", ValueError)
        return
    q = case.uniform(0.1, 1.0, n)
    how = case.choice(["negative", "nan", "inf", "zero", "short", "long", "empty"])
    i = case.int(0, n - 1)
    if how == "negative":
        q[i] = -case.logfloat(1e-4, 10)
    elif how == "nan":
        q[i] = np.nan
    elif how == "inf":
        q[i] = np.inf
    elif how == "zero":
        q = np.zeros(n)
    elif how == "short":
        q = q[:-1]
    elif how == "long":
        q = np.append(q, 0.2)
    else:
        q = np.zeros(0)
    if how in ("short", "long"):
        q = q / q.sum()
    if how == "negative" and case.bool():
        q[(i + 1) % n] += 1 - q.sum()                           # sums to one all the same
    case.note(how=how, vector=q)
    R = 0.05 * case.normal(n, 2)
    case.raises(lambda: pr.resolve_probabilities(q, n), f"resolve: {how}", ValueError)
    if how not in ("short", "long"):
        case.raises(lambda: pr.normalize_probability_vector(q), f"normalize: {how}", ValueError)
    case.raises(lambda: performance_report([0.5, 0.5], R, probabilities=q), f"performance_report: {how}")
    case.raises(lambda: pv.stress_test([0.5, 0.5], R, probabilities=q), f"stress_test: {how}")
    case.raises(lambda: pv.stress_test([0.5, 0.5], R, stressed_probabilities=q), f"stress_test (stressed): {how}")
    case.raises(lambda: pv.AssetsDistribution(scenarios=R, probabilities=q), f"AssetsDistribution: {how}")


@facet("C18", quick=5000, rule="random probability vectors (zeros, spikes, uniform, degenerate) up to 400 scenarios in any container: both counts equal their formulas, lie in [1, support], attain the ends only for degenerate/uniform vectors, entropy count >= Herfindahl count; invariant to order and zero scenarios; averaging towards uniform or between two vectors of equal count never lowers; non-trivial = support above two and not uniform")
def effective_counts(case):
    from pyvallocation import probabilities as pr
    n = case.int(1, case.choice([4, 40, 400]))
    mode = case.choice(["random", "uniform on subset", "degenerate", "near uniform", "near degenerate"])
    if mode == "random":
        p = probs(case, n)
    else:
        k = 1 if "degenerate" in mode else case.int(1, n)
        p = np.zeros(n)
        p[case.perm(n)[:k]] = 1.0 / k
        if mode.startswith("near"):
            e = case.logfloat(1e-6, 0.1)
            u = case.uniform(0.1, 1.0, n)
            p = (1 - e) * p + e * u / u.sum()
    p = p / p.sum()
    supp = p[p > 0]
    case.note(p=p, mode=mode)
    case.event(mode)
    box = case.choice(["array", "list", "series", "column"])
    wrap = lambda q: dict(array=q, list=list(q), series=pd.Series(q), column=np.reshape(q, (-1, 1)))[box]
    H = lambda q: pr.compute_effective_number_scenarios(wrap(q))
    K = lambda q: pr.compute_effective_number_scenarios_hhi(wrap(q))
    h, k = H(p), K(p)
    case.check(isinstance(h, float) and isinstance(k, float), "not a float")
    case.close(h, np.exp(-(supp * np.log(supp)).sum()), "entropy count", rtol=1e-10)
    case.close(k, 1.0 / (p ** 2).sum(), "Herfindahl count", rtol=1e-10)
    m = len(supp)
    flat = np.allclose(supp, 1.0 / m, rtol=1e-9)
    for v, what in ((h, "entropy"), (k, "Herfindahl")):
        case.check(1 - 1e-9 <= v <= m * (1 + 1e-9), f"{what} count {v} outside [1, {m}]")
        if not flat and np.abs(supp - 1.0 / m).max() > 1e-3 / m:
            case.check(v < m * (1 - 1e-9), f"{what} count reaches the support size for a non-uniform vector")
        if flat:
            case.close(v, m, f"{what} count of a uniform vector", rtol=1e-7)
        if supp.max() < 1 - 1e-4:
            case.check(v > 1 + 1e-6, f"{what} count is one for a non-degenerate vector")
    case.check(h >= k - 1e-9 * k, "entropy count below Herfindahl count")
    perm = case.perm(n) if n <= 40 else np.arange(n)[::-1]
    z = np.concatenate([p[perm], np.zeros(case.int(0, 3))])
    case.close([H(z), K(z)], [h, k], "order or zero-probability scenarios matter", rtol=1e-10)
    t = case.float(0.0, 1.0)
    f = (1 - t) * p + t / n
    case.check(H(f) >= h * (1 - 1e-10) and K(f) >= k * (1 - 1e-10), "flattening lowers the count", flattened=f)
    i, j = case.int(0, n - 1), case.int(0, n - 1)
    g = p.copy()
    d = t * (p[i] - p[j]) / 2
    g[i] -= d
    g[j] += d                                                     # move mass from the heavier to the lighter scenario
    if i != j:
        case.check(H(g) >= h * (1 - 1e-10) and K(g) >= k * (1 - 1e-10), "moving mass to a lighter scenario lowers the count")
    case.nontrivial(m > 2 and not flat)


def var_ok(losses, p, alpha, got, tol):
    """Is `got` a (1-alpha)-quantile of the loss distribution (either side when alpha hits an atom boundary)?"""
    return p[losses > got + tol].sum() <= alpha + 1e-9 and p[losses >= got - tol].sum() >= alpha - 1e-9


def _problem(case):
    T, n, m = case.size(1, 30), case.size(1, 4), case.choice([1, 1, 2, 4])
    R, mode = scenarios(case, T, n)
    p = probs(case, T)
    W = np.round(case.unit(n, m) * 2, 3)
    if case.bool():
        W = np.abs(W) + 0.01
        W = W / W.sum(axis=0)
    conf = case.choice([0.95, 0.9, 0.99, 0.5, 0.75, 0.8, 0.05, case.float(0.01, 0.995), 1 - 1 / T if T > 1 else 0.5, 1 - 2 / T if T > 2 else 0.5])
    return T, n, m, R, p, W, conf


@facet("C19", quick=4000, rule="random weighted scenario sets (ties, zero probabilities, T=1..30), one or many portfolios, labelled or not, with and without demeaning: VaR is a loss quantile and CVaR the exact tail mean; variance and volatility equal w'Sw; non-trivial = several scenarios in or beyond the tail")
def risk_measures_match_definitions(case):
    from pyvallocation.utils import functions as fn
    T, n, m, R, p, W, conf = _problem(case)
    alpha = 1 - conf
    demean = case.bool()
    given = case.chance(0.75)
    q = p if given else np.full(T, 1.0 / T)
    case.note(R=R, p=q, W=W, confidence=conf, demean=demean)
    lab = names(case, n)
    box = case.choice(["array", "pandas"])
    rows = [f"d{i}" for i in range(T)]
    Rin = R if box == "array" else pd.DataFrame(R, index=rows, columns=lab)
    one = m == 1 and case.bool()
    Win = (W[:, 0] if one else W) if box == "array" else (pd.Series(W[:, 0], index=lab) if one else pd.DataFrame(W, index=lab))
    pin = None if not given else case.choice([p, p.reshape(-1, 1), pd.Series(p, index=rows)])
    kw = dict(p=pin, confidence=conf, demean=demean)
    if conf == 0.95 and case.bool():
        kw.pop("confidence")
    if not demean and case.bool():
        kw.pop("demean")
    X = R - q @ R if demean else R
    L = -(X @ W)
    v = fn.portfolio_var(Win, Rin, **kw)
    c = fn.portfolio_cvar(Win, Rin, **kw)
    for x, what in ((v, "VaR"), (c, "CVaR")):
        if m == 1:
            case.check(np.ndim(x) == 0, f"{what} of one portfolio is not a scalar", got=x)
        else:
            case.check(np.size(x) == m, f"{what} has {np.size(x)} values for {m} portfolios")
    v, c = np.asarray(v, float).reshape(-1), np.asarray(c, float).reshape(-1)
    s = max(1.0, np.abs(L).max())
    for j in range(m):
        case.check(var_ok(L[:, j], q, alpha, v[j], 1e-10 * s), f"VaR of portfolio {j} is not the loss quantile", got=v[j], losses=L[:, j])
        case.check(np.abs(L[:, j] - v[j]).min() <= 1e-10 * s, f"VaR of portfolio {j} is no scenario loss", got=v[j])
        case.close(c[j], cvar_exact(L[:, j], q, alpha), f"CVaR of portfolio {j}", rtol=1e-9, atol=1e-9 * s / alpha * 1e-2 + 1e-10)
        case.check(c[j] >= v[j] - 1e-9 * s, f"CVaR below VaR for portfolio {j}", var=v[j], cvar=c[j])
    S = (R - q @ R).T @ ((R - q @ R) * q[:, None])
    S = (S + S.T) / 2
    Sin = S if box == "array" else pd.DataFrame(S, index=lab, columns=lab)
    want = np.array([W[:, j] @ S @ W[:, j] for j in range(m)])
    case.close(np.asarray(fn.portfolio_variance(Win, Sin)).reshape(-1), want, "variance", rtol=1e-9, atol=1e-15)
    case.close(np.asarray(fn.portfolio_volatility(Win, Sin)).reshape(-1), np.sqrt(np.maximum(want, 0)), "volatility", rtol=1e-7, atol=1e-8)
    if m == 1:
        case.check(np.ndim(fn.portfolio_variance(Win, Sin)) == 0 and np.ndim(fn.portfolio_volatility(Win, Sin)) == 0, "one portfolio, non-scalar")
    k = int((L[:, 0] >= v[0]).sum())
    case.event("atom at the quantile", k >= 2)
    case.event("zero probabilities", bool(np.any(q == 0)))
    case.nontrivial(T > 3)


@facet("C19", quick=2500, rule="same inputs: shuffling scenarios, splitting a probability, leverage, cash shift, subadditivity, monotonicity in confidence; non-trivial = more than three scenarios")
def risk_measure_relations(case):
    from pyvallocation.utils import functions as fn
    T, n, m, R, p, W, conf = _problem(case)
    demean = case.bool()
    w, u = W[:, 0], np.round(case.unit(n), 3)
    cv = lambda w, R=R, p=p, conf=conf: float(fn.portfolio_cvar(w, R, p, confidence=conf, demean=demean))
    va = lambda w, R=R, p=p, conf=conf: float(fn.portfolio_var(w, R, p, confidence=conf, demean=demean))
    case.note(R=R, p=p, w=w, u=u, confidence=conf, demean=demean)
    a = 1 - conf
    L = -((R - (p @ R if demean else 0)) @ w)
    cum = np.cumsum(p[np.argsort(-L, kind="stable")])
    clear = np.abs(cum - a).min() > 1e-7                         # the quantile is unique: VaR relations are exact
    tol = 1e-9 + 1e-10 / a
    perm = case.perm(T)
    base, basev = cv(w), va(w)
    case.close(cv(w, R[perm], p[perm]), base, "CVaR depends on scenario order", rtol=1e-8, atol=tol)
    i = case.int(0, T - 1)
    t = case.float(0.0, 1.0)
    R2, p2 = np.vstack([R, R[i]]), np.append(p, p[i] * t)
    p2[i] = p[i] * (1 - t)
    case.close(cv(w, R2, p2), base, "CVaR changes when a scenario is split", rtol=1e-8, atol=tol)
    lev = case.logfloat(0.01, 50)
    case.close(cv(lev * w), lev * base, "CVaR does not scale with leverage", rtol=1e-8, atol=tol * max(lev, 1))
    cash = case.float(-0.5, 0.5)
    R3, w3 = np.column_stack([R, np.full(T, cash)]), np.append(w, 1.0)
    sh = 0.0 if demean else cash
    case.close(cv(w3, R3), base - sh, "CVaR does not shift with cash", rtol=1e-8, atol=tol)
    if clear:
        case.close(va(w, R[perm], p[perm]), basev, "VaR depends on scenario order", rtol=1e-9, atol=1e-10)
        case.close(va(w, R2, p2), basev, "VaR changes when a scenario is split", rtol=1e-9, atol=1e-10)
        case.close(va(lev * w), lev * basev, "VaR does not scale with leverage", rtol=1e-9, atol=1e-10 * max(lev, 1))
        case.close(va(w3, R3), basev - sh, "VaR does not shift with cash", rtol=1e-9, atol=1e-10)
    case.check(cv(w + u) <= base + cv(u) + tol, "CVaR is not subadditive", both=cv(w + u), first=base, second=cv(u))
    c2 = case.float(conf, 0.999)
    case.check(cv(w, conf=c2) >= base - 1e-9 - 1e-10 / (1 - c2), "CVaR falls with confidence", other=c2)
    case.check(va(w, conf=c2) >= basev - 1e-9 or not clear, "VaR falls with confidence", other=c2)
    case.event("unique quantile", clear)
    case.nontrivial(T > 3)
    for bad in (0.0, 1.0, -0.1, 1.5, float("nan")):
        case.raises(lambda: fn.portfolio_cvar(w, R, p, confidence=bad), f"CVaR confidence {bad}", ValueError)
        case.raises(lambda: fn.portfolio_var(w, R, p, confidence=bad), f"VaR confidence {bad}", ValueError)


@facet("C19", quick=500, rule="frontiers of every kind from a distribution with scenarios and drawn (non-uniform) probabilities: the extra risks attached to them are recomputed from each column; non-trivial = at least two columns and non-uniform probabilities")
def overlay_risks_match_weights(case):
    import pyvallocation as pv
    n = case.size(2, 4)
    T = case.size(8, 30)
    R, mode = scenarios(case, T, n)
    p = probs(case, T)
    lab = names(case, n) if case.bool() else None
    df = lambda a: pd.DataFrame(a, columns=lab) if lab else a
    own = case.bool()
    mu, S = moments(case, n)
    if not own:
        mu = p @ R
        S = (R - mu).T @ ((R - mu) * p[:, None])
        if np.linalg.eigvalsh(S).min() < 1e-10:
            case.reject()
    mom = dict(mu=pd.Series(mu, index=lab) if lab else mu, cov=pd.DataFrame(S, index=lab, columns=lab) if lab else S) if own else {}
    kind = case.choice(["variance", "cvar", "robust", "robust_given", "posterior", "relaxed"])
    C = (R - p @ R).T @ ((R - p @ R) * p[:, None])
    vol = lambda W, M: np.sqrt(np.maximum(np.einsum("ij,ik,kj->j", W, M, W), 0))
    tail = lambda W: np.array([cvar_exact(-(R @ W[:, j]), p, 0.05) for j in range(W.shape[1])])
    m = case.int(1, 5)
    case.note(kind=kind, R=R, p=p, own=own, mu=mu, S=S, num=m, labels=lab)
    if kind == "posterior":
        return _posterior_overlay(case, pv, n, lab, m)
    wr = pv.PortfolioWrapper(pv.AssetsDistribution(scenarios=df(R), probabilities=p, **mom))
    want = {}
    if kind == "variance":
        fr = wr.variance_frontier(num_portfolios=m)
        W = np.asarray(fr.weights)
        case.close(fr.risks, vol(W, S), "frontier volatility", rtol=1e-6, atol=1e-8)
        want["CVaR (95%)"] = tail(W)
    elif kind == "cvar":
        alpha = case.choice([0.05, 0.1, 0.3])
        fr = wr.cvar_frontier(num_portfolios=m, alpha=alpha)
        W = np.asarray(fr.weights)
        want["Volatility"] = vol(W, C)
        want[f"CVaR (raw, alpha={alpha:.2f})"] = np.array([cvar_exact(-(R @ W[:, j]), p, alpha) for j in range(W.shape[1])])
    elif kind == "relaxed":
        fr = wr.relaxed_risk_parity_frontier(num_portfolios=max(m, 2), max_multiplier=1.2)
        W = np.asarray(fr.weights)
        case.close(fr.risks, vol(W, S), "frontier volatility", rtol=1e-6, atol=1e-8)
        want["CVaR (95%)"] = tail(W)
    else:
        lam = [float(x) for x in case.uniform(0, 3, m)]
        kw, M = {}, C
        if kind == "robust_given":
            M = moments(case, n)[1]
            kw["return_cov"] = M
            if lab:
                q = case.perm(n)
                kw["return_cov"] = pd.DataFrame(M, index=lab, columns=lab).iloc[q, case.perm(n)] if case.bool() else M
        fr = wr.robust_lambda_frontier(lambdas=lam, **kw)
        W = np.asarray(fr.weights)
        case.close(fr.risks, vol(W, S), "uncertainty radius", rtol=1e-4, atol=1e-6)
        want["Volatility"] = vol(W, M)
        want["CVaR (95%)"] = tail(W)
    got = fr.alternate_risks
    case.check(set(got) == set(want), "attached risks", have=sorted(got), expected=sorted(want))
    for k, v in want.items():
        case.close(got[k], v, f"attached {k} vs recomputation ({kind})", rtol=1e-6, atol=1e-8)
        case.check(k in fr.available_risk_measures(), "attached risk not listed")
    case.event(kind)
    case.nontrivial(W.shape[1] >= 2 and np.ptp(p) > 1e-9)


def _posterior_overlay(case, pv, n, lab, m):
    """A robust frontier built from a Bayesian posterior carries the volatility of the posterior return covariance."""
    from pyvallocation.bayesian import RobustBayesPosterior
    mu, S = moments(case, n)
    mu, S = mu / 10, S / 10
    U = moments(case, n)[1] / 100
    fac = case.choice([1.0, 1.0, 4.0])
    post = RobustBayesPosterior(mu=pd.Series(mu, index=lab) if lab else mu,
                                sigma=pd.DataFrame(S, index=lab, columns=lab) if lab else S,
                                s_mu=pd.DataFrame(U, index=lab, columns=lab) if lab else U)
    wr = pv.PortfolioWrapper.from_robust_posterior(post, long_only=True, annualization_factor=fac)
    lam = [float(x) for x in case.uniform(0, 3, m)]
    fr = wr.robust_lambda_frontier(lambdas=lam)
    W = np.asarray(fr.weights)
    vol = lambda M: np.sqrt(np.maximum(np.einsum("ij,ik,kj->j", W, M, W), 0))
    case.check(list(fr.alternate_risks) == ["Volatility"], "attached risks", have=list(fr.alternate_risks))
    case.close(fr.alternate_risks["Volatility"], vol(S * fac), "attached volatility vs posterior return covariance", rtol=1e-6, atol=1e-9)
    case.close(fr.risks, vol(U * fac ** 2), "uncertainty radius", rtol=1e-4, atol=1e-6)
    case.event("posterior")
    case.nontrivial(W.shape[1] >= 2)
