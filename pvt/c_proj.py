"""C25 C26 C27: conversions, projection and repricing."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import names, corr


# ------------------------------------------------------------------ C25
@facet("C25", quick=3000, rule="scenario matrices or vectors of returns (from -99.9% to +2000%, tiny to large) in arrays or frames: formulas, mutual inversion both ways, labels kept, total losses rejected; non-trivial = more than one value")
def scenario_conversions(case):
    from pyvallocation.utils import projection as pj
    T, n = case.size(1, 12), case.size(1, 4)
    scale = case.choice([1e-6, 1e-3, 0.05, 0.5, 2.0])
    g = scale * case.normal(T, n)
    g = np.clip(g, -6, 3)
    lab = names(case, n)
    box = case.choice(["array", "frame", "series", "vector"])
    if box in ("series", "vector"):
        g = g[:, 0]
    rows = [f"d{i}" for i in range(T)]
    wrap = lambda x: dict(array=lambda: x, vector=lambda: x, frame=lambda: pd.DataFrame(x, index=rows, columns=lab),
                          series=lambda: pd.Series(x, index=rows, name="asset"))[box]()
    case.note(compound=g, container=box)
    s = pj.convert_scenarios_compound_to_simple(wrap(g))
    want = np.array([np.expm1(v) for v in g.ravel()]).reshape(g.shape)
    case.close(np.asarray(s), want, "compound to simple", rtol=1e-12, atol=1e-15)
    back = pj.convert_scenarios_simple_to_compound(s)
    case.close(np.asarray(back), g, "simple to compound inverts", rtol=1e-10, atol=1e-13)
    c = pj.convert_scenarios_simple_to_compound(wrap(want))
    case.close(np.asarray(c), np.log1p(want), "simple to compound", rtol=1e-10, atol=1e-15)
    case.close(np.asarray(pj.convert_scenarios_compound_to_simple(c)), want, "compound to simple inverts", rtol=1e-10, atol=1e-13)
    if box == "frame":
        case.check(isinstance(s, pd.DataFrame) and list(s.columns) == lab and list(s.index) == rows, "labels lost (to simple)")
        case.check(isinstance(c, pd.DataFrame) and list(c.columns) == lab and list(c.index) == rows, "labels lost (to compound)")
    if box == "series":
        case.check(isinstance(s, pd.Series) and list(s.index) == rows and isinstance(c, pd.Series) and list(c.index) == rows, "labels lost")
    bad = want.copy()
    bad.reshape(-1)[case.int(0, bad.size - 1)] = case.choice([-1.0, -1.5, -1.0 - 1e-9])
    case.raises(lambda: pj.convert_scenarios_simple_to_compound(wrap(bad)), "total loss accepted", ValueError)
    case.nontrivial(g.size > 1)


def _logmoments(case, n):
    v = np.exp(case.uniform(np.log(0.002), np.log(case.choice([0.05, 0.4, 0.9])), n))
    C = corr(case, n)
    if n > 1 and case.chance(0.2):                              # singular: two assets move as one
        C = C.copy()
        C[1], C[:, 1] = C[0], C[:, 0]
        C[1, 1] = 1.0
    lo, hi = case.choice([(-0.4, 0.4), (-0.4, 0.4), (-2.5, 1.5)])
    return case.uniform(lo, hi, n), np.outer(v, v) * C


@facet("C25", quick=3000, rule="log-space moments (also singular, n=1..6, vol 0.2%..90%) in arrays or labelled: simple-space moments equal the log-normal closed form (and a bivariate quadrature of exp), are PSD, invert both ways; non-trivial = n>=2")
def lognormal_moments(case):
    from pyvallocation.utils import projection as pj
    n = case.size(1, 6)
    m, S = _logmoments(case, n)
    lab = names(case, n)
    labelled = case.bool()
    ms = pd.Series(m, index=lab, name="mu") if labelled else m.copy()
    Ss = pd.DataFrame(S, index=lab, columns=lab) if labelled else S.copy()
    case.note(mu_log=m, cov_log=S, labels=lab if labelled else None)
    a, B = pj.log2simple(ms, Ss)
    M = np.array([np.exp(m[i] + S[i, i] / 2) for i in range(n)])
    V = np.array([[M[i] * M[j] * np.expm1(S[i, j]) for j in range(n)] for i in range(n)])
    case.close(np.asarray(a), M - 1, "simple mean", rtol=1e-10, atol=1e-14)
    case.close(np.asarray(B), V, "simple covariance", rtol=1e-8, atol=1e-13)
    if n >= 1:                                                   # quadrature: E[(e^x - 1)] and E[(e^x-1)(e^y-1)] under the normal
        i, j = case.int(0, n - 1), case.int(0, n - 1)
        x, wq = np.polynomial.hermite_e.hermegauss(40)
        wq = wq / wq.sum()
        si = np.sqrt(S[i, i])
        beta = S[i, j] / S[i, i]
        r = np.sqrt(max(S[j, j] - beta * S[i, j], 0.0))
        X = m[i] + si * x[:, None]
        Y = m[j] + beta * si * x[:, None] + r * x[None, :] if i != j else X + 0 * x[None, :]
        E = lambda f: float((wq[:, None] * wq[None, :] * f).sum())
        ex, ey, exy = E(np.expm1(X) + 0 * Y), E(np.expm1(Y)), E(np.expm1(X) * np.expm1(Y))
        case.close(float(np.asarray(a)[i]), ex, "simple mean vs quadrature", rtol=1e-7, atol=1e-9)
        case.close(float(np.asarray(B)[i, j]), exy - ex * ey, "simple covariance vs quadrature", rtol=1e-5, atol=1e-8)
    Bn = np.asarray(B)
    case.check(np.allclose(Bn, Bn.T, rtol=1e-10, atol=1e-15), "simple covariance is not symmetric")
    if labelled:                                                 # a covariance listed in another order is matched by label
        o = case.perm(n)
        mo, So = pj.simple2log(a, pd.DataFrame(Bn[np.ix_(o, o)], index=[lab[i] for i in o], columns=[lab[i] for i in o]))
        case.close(np.asarray(mo.loc[lab]), m, "simple2log with reordered covariance: mean", rtol=1e-9, atol=1e-10)
        case.close(np.asarray(So.loc[lab, lab]), S, "simple2log with reordered covariance", rtol=1e-8, atol=1e-11)
        mo, So = pj.log2simple(ms, pd.DataFrame(S[np.ix_(o, o)], index=[lab[i] for i in o], columns=[lab[i] for i in o]))
        case.close(np.asarray(mo.loc[lab]), M - 1, "log2simple with reordered covariance: mean", rtol=1e-10, atol=1e-14)
        case.close(np.asarray(So.loc[lab, lab]), V, "log2simple with reordered covariance", rtol=1e-8, atol=1e-13)
    case.check(np.linalg.eigvalsh((Bn + Bn.T) / 2).min() >= -1e-10 * max(np.trace(Bn), 1e-6), "simple covariance is not PSD")
    m2, S2 = pj.simple2log(a, B)
    case.close(np.asarray(m2), m, "simple2log inverts the mean", rtol=1e-9, atol=1e-10)
    case.close(np.asarray(S2), S, "simple2log inverts the covariance", rtol=1e-8, atol=1e-11)
    a3, B3 = pj.log2simple(m2, S2)
    case.close(np.asarray(a3), M - 1, "log2simple inverts the mean", rtol=1e-9, atol=1e-10)
    case.close(np.asarray(B3), V, "log2simple inverts the covariance", rtol=1e-7, atol=1e-11)
    if labelled:
        for v, q in ((a, B), (m2, S2)):
            case.check(isinstance(v, pd.Series) and list(v.index) == lab, "mean labels lost")
            case.check(isinstance(q, pd.DataFrame) and list(q.index) == lab and list(q.columns) == lab, "covariance labels lost")
    bad = M - 1
    bad[case.int(0, n - 1)] = case.choice([-1.0, -1.2])
    case.raises(lambda: pj.simple2log(bad, V), "mean return of -100% accepted", ValueError)
    case.nontrivial(n >= 2)


@facet("C25", quick=2500, rule="any moments and horizon factors: projection is linear in both moments, composes over successive horizons, keeps labels and PSD, and matches the robust-posterior horizon scaling of mean and return covariance; non-trivial = factor not one")
def horizon_scaling(case):
    from pyvallocation.utils import projection as pj
    n = case.size(1, 5)
    m, S = _logmoments(case, n)
    lab = names(case, n)
    labelled = case.bool()
    ms = pd.Series(m, index=lab) if labelled else m.copy()
    Ss = pd.DataFrame(S, index=lab, columns=lab) if labelled else S.copy()
    h1, h2 = case.choice([1, 1.0, 2, 12, 52, 252, 0.5, case.logfloat(1e-3, 1e3)]), case.choice([1, 3, 0.25, case.logfloat(1e-2, 1e2)])
    case.note(mu=m, cov=S, factors=[h1, h2])
    a, B = pj.project_mean_covariance(ms, Ss, h1)
    case.close(np.asarray(a), m * h1, "mean scaling", rtol=1e-13)
    case.close(np.asarray(B), S * h1, "covariance scaling", rtol=1e-13)
    a2, B2 = pj.project_mean_covariance(a, B, h2)
    a3, B3 = pj.project_mean_covariance(ms, Ss, h1 * h2)
    case.close(np.asarray(a2), np.asarray(a3), "mean scaling does not compose", rtol=1e-12)
    case.close(np.asarray(B2), np.asarray(B3), "covariance scaling does not compose", rtol=1e-12)
    case.check(np.linalg.eigvalsh(np.asarray(B)).min() >= -1e-10 * max(np.trace(np.asarray(B)), 1e-12), "PSD lost")
    if labelled:
        case.check(isinstance(a, pd.Series) and list(a.index) == lab, "mean labels lost")
        case.check(isinstance(B, pd.DataFrame) and list(B.index) == lab and list(B.columns) == lab, "covariance labels lost")
    case.nontrivial(h1 != 1)


# ------------------------------------------------------------------ C26
def _coded(case, h):
    """Scenario rows coded so that a sum of up to h rows reveals how often each row was drawn, per column."""
    base = h + 1
    T = case.int(1, max(1, min(7, int(50 / np.log2(base)))))
    n = case.int(1, 4)
    perms = [case.perm(T) for _ in range(n)]
    R = np.array([[float(base) ** perms[c][i] for c in range(n)] for i in range(T)])
    return T, n, base, perms, R


def _decode(x, base, perm):
    k = int(round(x))
    c = []
    for _ in range(len(perm)):
        c.append(k % base)
        k //= base
    return np.array([c[perm[i]] for i in range(len(perm))]), k


def _wrap_R(case, R, n):
    lab = names(case, n)
    box = case.choice(["array", "frame"] + (["vector", "series"] if n == 1 else []))
    T = len(R)
    return box, lab, {"array": R, "frame": pd.DataFrame(R, columns=lab, index=[f"d{i}" for i in range(T)]),
                      "vector": R[:, 0], "series": pd.Series(R[:, 0], name="drv", index=[f"d{i}" for i in range(T)])}[box]


def _pvec(case, T):
    mode = case.choice(["none", "proper", "scaled", "off", "zeros"])
    p = case.uniform(0.1, 1.0, T)
    if mode == "zeros" and T > 1:
        p[case.perm(T)[: case.int(1, T - 1)]] = 0.0
    p = p / p.sum()
    if mode == "none":
        return None, np.full(T, 1.0 / T)
    arg = p * {"scaled": 5.0, "off": 1 + 3e-6}.get(mode, 1.0)
    return case.choice([arg, list(arg), pd.Series(arg, index=[f"d{i}" for i in range(T)]), arg.reshape(-1, 1)]), p


@facet("C26", quick=3000, rule="rows coded by powers of (horizon+1), differently per column: every projected row decodes to exactly `horizon` draws of complete positive-probability rows, shape and labels kept, repricing applied to the sums, equal seeds equal output; non-trivial = two or more rows, columns and draws")
def projections_sum_whole_rows(case):
    from pyvallocation.utils import projection as pj
    h = case.size(1, 9, 90)
    T, n, base, perms, R = _coded(case, h)
    sims, seed = case.size(1, 12), case.int(0, 10 ** 6)
    box, lab, src = _wrap_R(case, R, n)
    arg, p = _pvec(case, T)
    case.note(R=R, p=p, horizon=h, n_simulations=sims, seed=seed, container=box)
    kw = dict(investment_horizon=case.choice([h, np.int64(h)]), p=arg, n_simulations=sims, seed=seed)
    f = pj.project_scenarios if case.bool() else pj.project_risk_drivers
    out = f(src, **kw)
    got = np.asarray(out, float)
    case.check(got.shape == ((sims,) if box in ("vector", "series") else (sims, n)), f"shape {got.shape}")
    if box == "frame":
        case.check(list(out.columns) == lab and len(out.index) == sims, "labels lost")
    if box == "series":
        case.check(isinstance(out, pd.Series) and out.name == "drv", "series name lost")
    flat = got.reshape(sims, -1)
    for i in range(sims):
        counts = []
        for c in range(n):
            k, rest = _decode(flat[i, c], base, perms[c])
            case.check(rest == 0 and k.sum() == h, f"scenario {i}, column {c}: not a sum of {h} rows", value=flat[i, c], counts=k)
            counts.append(k)
        case.check(all(np.array_equal(k, counts[0]) for k in counts), f"scenario {i} mixes assets from different rows", counts=counts)
        case.check(np.all(counts[0][p == 0] == 0), f"scenario {i} uses a zero-probability row", counts=counts[0])
    case.check(np.array_equal(np.asarray(f(src, **kw), float), got), "equal seeds, different output")
    a = case.float(0.1, 2.0)
    rp = lambda y: np.log(y) * a + 1
    case.close(np.asarray(f(src, reprice=rp, **kw), float), np.log(got) * a + 1, "repricing of the sums", rtol=1e-12)
    case.nontrivial(T > 1 and n > 1 and h > 1 and sims > 1)


@facet("C26", quick=3000, rule="rows coded per column: every step of every simulated path adds exactly one complete positive-probability row, repricing acts on the cumulative values of each step (also when it changes the number of instruments), equal seeds equal output; non-trivial = several rows, columns and steps")
def paths_add_whole_rows(case):
    from pyvallocation.utils import projection as pj
    h = case.size(1, 8, 90)
    T, n, base, perms, R = _coded(case, h)
    paths, seed = case.size(1, 8), case.int(0, 10 ** 6)
    box, lab, src = _wrap_R(case, R, n)
    arg, p = _pvec(case, T)
    case.note(R=R, p=p, horizon=h, n_paths=paths, seed=seed, container=box)
    kw = dict(horizon=h, n_paths=paths, p=arg, seed=seed)
    out = pj.simulate_paths(src, **kw)
    case.check(isinstance(out, np.ndarray) and out.shape == (paths, h, n), f"shape {np.shape(out)}")
    step = np.diff(np.concatenate([np.zeros((paths, 1, n)), out], axis=1), axis=1)
    rows = {tuple(r): i for i, r in enumerate(R)}
    for i in range(paths):
        for t in range(h):
            k = rows.get(tuple(step[i, t]))
            case.check(k is not None, f"path {i} step {t + 1} is no historical row", step=step[i, t])
            case.check(p[k] > 0, f"path {i} step {t + 1} uses a zero-probability row")
    case.check(np.array_equal(pj.simulate_paths(src, **kw), out), "equal seeds, different output")
    k = case.int(1, 4)
    A = np.round(case.unit(n, k), 2)
    got = pj.simulate_paths(src, reprice=lambda y: np.log1p(y) @ A, **kw)
    case.close(got, np.log1p(out) @ A, "repricing per step", rtol=1e-9, atol=1e-9)
    case.nontrivial(T > 1 and n > 1 and h > 1)


@facet("C26", quick=250, rule="2000 to 6000 draws per case from unequal probabilities (zeros, scaled, absent): row frequencies and the frequency of repeating the previous draw lie within six standard errors, neighbouring seeds differ; all cases with two possible rows non-trivial")
def draw_frequencies_follow_probabilities(case):
    from pyvallocation.utils import projection as pj
    T = case.int(2, 6)
    arg, p = _pvec(case, T)
    seed = case.int(0, 10 ** 6)
    n_draw = case.int(2000, 6000)
    R = np.eye(T)
    case.note(p=p, draws=n_draw, seed=seed)

    def z_ok(hits, total, q, what):
        se = np.sqrt(max(q * (1 - q), 1e-12) / total)
        case.check(abs(hits / total - q) <= 6.5 * se + 2.0 / total, f"{what}: frequency {hits / total:.4f}, probability {q:.4f}")
    one = pj.project_scenarios(R, investment_horizon=1, p=arg, n_simulations=n_draw, seed=seed)
    for i in range(T):
        z_ok(one[:, i].sum(), n_draw, p[i], f"row {i} in one-step projections")
    two = pj.project_scenarios(R, investment_horizon=2, p=arg, n_simulations=n_draw, seed=seed)
    z_ok((two == 2).any(axis=1).sum(), n_draw, (p ** 2).sum(), "same row twice in a two-step projection")
    for i in range(T):
        z_ok((two[:, i] > 0).sum(), n_draw, 1 - (1 - p[i]) ** 2, f"row {i} in two-step projections")
    hv = case.int(1, 4)                                          # a single driver given as a vector, rows coded by powers
    code = (hv + 1.0) ** np.arange(T)
    for what, x in (("a vector's projection", pj.project_scenarios(pd.Series(code) if case.bool() else code, investment_horizon=hv, p=arg, n_simulations=n_draw, seed=seed)),
                    ("a vector's path", pj.simulate_paths(code, horizon=hv, n_paths=n_draw, p=arg, seed=seed)[:, -1])):
        left = np.rint(np.asarray(x, float).reshape(-1)).astype(int)
        for i in range(T):
            z_ok((left % (hv + 1)).sum(), n_draw * hv, p[i], f"row {i} in {what}")
            left = left // (hv + 1)
    if case.chance(0.3):                                         # with replacement, also when there are rows enough to do without
        m = case.int(50, 80)
        kw = dict(p=case.choice([None, np.full(m, 1.0 / m)]), seed=seed)
        for what, x in (("one-step projections", pj.project_scenarios(np.eye(m), investment_horizon=1, n_simulations=m, **kw)),
                        ("first path steps", pj.simulate_paths(np.eye(m), horizon=1, n_paths=m, **kw)[:, 0]),
                        ("draws within a path", np.diff(np.vstack([np.zeros(m), pj.simulate_paths(np.eye(m), horizon=m, n_paths=1, **kw)[0]]), axis=0))):
            seen = len(set(np.argmax(x, axis=1).tolist()))       # all different: probability below 1e-20
            case.check(seen < m, f"{what}: {m} draws of {m} rows never repeat one")
            case.check(seen >= m // 3, f"{what}: only {seen} of {m} equally likely rows appear in {m} draws")
    h = case.int(2, 5)
    paths = pj.simulate_paths(R, horizon=h, n_paths=n_draw, p=arg, seed=seed)
    step = np.diff(np.concatenate([np.zeros((n_draw, 1, T)), paths], axis=1), axis=1)
    for t in range(h):
        for i in range(T):
            z_ok(step[:, t, i].sum(), n_draw, p[i], f"row {i} at path step {t + 1}")
    z_ok((step[:, 0] * step[:, 1]).sum(), n_draw, (p ** 2).sum(), "same row at steps one and two")
    z_ok((step[1:, 0] * step[:-1, 0]).sum(), n_draw - 1, (p ** 2).sum(), "same row in neighbouring paths")
    if (p > 1e-2).sum() > 1:
        other = pj.project_scenarios(R, investment_horizon=1, p=arg, n_simulations=n_draw, seed=seed + 1)
        case.check(not np.array_equal(one, other), "different seeds, equal output")
        case.check(not np.array_equal(paths, pj.simulate_paths(R, horizon=h, n_paths=n_draw, p=arg, seed=seed + 1)), "different seeds, equal paths")
    case.nontrivial((p > 0).sum() > 1)


@facet("C26", quick=1200, rule="one invalid horizon, count or probability vector per case for projections, paths and the entry points above them: an error; all cases non-trivial")
def invalid_projection_inputs_rejected(case):
    from pyvallocation.utils import projection as pj
    import pyvallocation as pv
    T, n = case.int(2, 6), case.int(1, 3)
    R = 0.02 * case.normal(T, n)
    df = pd.DataFrame(R, columns=[f"x{i}" for i in range(n)])
    kind = case.choice(["horizon", "count", "negative", "nan", "inf", "zero", "short", "long"])
    h, m, p = 2, 5, None
    if kind == "horizon":
        h = -case.int(0, 3)
    elif kind == "count":
        m = -case.int(0, 3)
    else:
        p = case.uniform(0.1, 1.0, T)
        i = case.int(0, T - 1)
        if kind == "negative":
            p[i] = -0.05
        elif kind in ("nan", "inf"):
            p[i] = float(kind)
        elif kind == "zero":
            p[:] = 0.0
        elif kind == "short":
            p = p[:-1]
        else:
            p = np.append(p, 0.3)
        if kind in ("negative", "short", "long"):
            p = p / p.sum()
    case.note(kind=kind, horizon=h, count=m, p=p)
    case.event(kind)
    src = df if case.bool() else R
    w = np.full(n, 1.0 / n)
    case.raises(lambda: pj.project_scenarios(src, investment_horizon=h, n_simulations=m, p=p, seed=1), f"project_scenarios: {kind}")
    case.raises(lambda: pj.simulate_paths(src, horizon=h, n_paths=m, p=p, seed=1), f"simulate_paths: {kind}")
    case.raises(lambda: pv.PortfolioWrapper.from_invariants(src, horizon=h, n_simulations=m, p=p, seed=1), f"from_invariants: {kind}")
    case.raises(lambda: pv.horizon_report(w, src, horizons=(h,), n_simulations=m, p=p, seed=1), f"horizon_report: {kind}")
    case.raises(lambda: pv.drawdown_quantile(w, src, h, n_paths=m, p=p, seed=1), f"drawdown_quantile: {kind}")


# ------------------------------------------------------------------ C27
def _price(kind, c):
    return {"exp": lambda Y: c * np.exp(-0.5 * Y), "square": lambda Y: c * Y ** 2 + Y, "root": lambda Y: c * np.sqrt(1 + Y ** 2)}[kind]


@facet("C27", quick=4000, rule="any driver changes (vectors or matrices, scalar or per-instrument sensitivities, some absent) equal the formulas; generic pricing of one or several drivers (instrument-wise, combining and reducing) equals price change from the current level and zero for no move; non-trivial = more than one scenario")
def builtin_repricers_match_formulas(case):
    from pyvallocation.utils import projection as pj
    n, T = case.size(1, 5), case.size(1, 12)
    dy = case.choice([1e-4, 0.05, 0.5, 2.0]) * case.normal(T, n)
    vec = case.bool() and n == 1
    x = dy[:, 0] if vec else dy
    case.note(dy=dy)
    keep = x.copy()
    case.close(pj.reprice_exp(x), np.expm1(x), "exponential repricing", rtol=1e-11, atol=1e-15)
    co = {}
    for k in ("theta", "delta", "gamma"):
        if case.chance(0.75):
            co[k] = case.float(-20, 20) if case.bool() or vec else np.round(case.uniform(-20, 20, n), 3)
    tau = case.choice([0.0, 1 / 252, 1 / 12, 1.0, case.float(0, 3)])
    args = {k: (list(v) if isinstance(v, np.ndarray) and case.bool() else v) for k, v in co.items()}
    if case.bool() or tau:
        args["tau"] = tau
    case.note(coefficients=co, tau=tau)
    want = np.zeros_like(x)
    for i in np.ndindex(x.shape):
        g = lambda k: (co[k][i[-1]] if np.ndim(co[k]) else co[k]) if k in co else 0.0
        want[i] = g("theta") * tau + g("delta") * x[i] + g("gamma") * x[i] ** 2 / 2
    case.close(pj.reprice_taylor(x, **args), want, "Taylor repricing", rtol=1e-11, atol=1e-13)
    y0 = np.round(case.uniform(-1.0, 1.0, n), 3)
    kind = case.choice(["exp", "square", "root"])
    c = case.float(0.5, 120)
    base = _price(kind, c)
    shape = case.choice(["instrument-wise", "sum", "spread"]) if n > 1 else "instrument-wise"
    A = np.round(case.unit(n, 2), 2)
    f = {"instrument-wise": base, "sum": lambda Y: base(Y).sum(axis=-1) if Y.ndim > 1 else base(Y).sum(),
         "spread": lambda Y: base(Y[:, 0]) - base(Y[:, 1])}[shape]
    if shape == "instrument-wise" and n > 1 and case.bool():
        f = lambda Y: base(Y) @ A
    rp = pj.make_repricing_fn(f, y0 if case.bool() else list(y0))
    now, then = np.atleast_1d(np.asarray(f(y0[None, :])))[0], f(y0 + dy)
    want = np.asarray(then) - now
    got = rp(dy)
    case.close(np.asarray(got), want, f"generic repricing ({shape})", rtol=1e-9, atol=1e-9 * c)
    case.check(np.abs(np.asarray(rp(np.zeros_like(dy)))).max() <= 1e-10 * c, "no driver move, non-zero payoff")
    case.check(np.array_equal(x, keep), "driver changes modified")
    case.nontrivial(T > 1)


@facet("C27", quick=4000, rule="random instruments (own-name, (name, f), ([name], f), ([names], f) with every driver subset and order) over shuffled driver columns: each output column equals its function on exactly its drivers, in instrument order, invariant to driver column order; unknown drivers and malformed specifications raise; non-trivial = two or more instruments and drivers in another order")
def composed_repricers_route_drivers(case):
    from pyvallocation.utils import projection as pj
    K, T = case.size(1, 5), case.size(1, 6)
    drivers = names(case, K)
    drivers = [str(d) if not isinstance(d, str) else d for d in drivers]
    dy = np.round(case.unit(T, K), 3)
    spec, want, inst = {}, [], []
    for i in range(case.int(1, 5)):
        kind = case.choice(["own", "str", "list1", "multi"])
        a, b = case.float(0.5, 3), case.float(-2, 2)
        if kind == "own":
            free = [d for d in drivers if d not in spec]
            if not free:
                continue
            d = case.choice(free)
            spec[d] = (lambda a, b: lambda y: a * y + b * y ** 2)(a, b)
            x = dy[:, drivers.index(d)]
            name, v = d, a * x + b * x ** 2
        else:
            name = f"I{i}"
            k = 1 if kind != "multi" else case.int(1, K)
            cols = [drivers[j] for j in case.perm(K)[:k]]
            if kind == "str":
                spec[name] = (cols[0], (lambda a: lambda y: a * np.sin(y))(a))
                v = a * np.sin(dy[:, drivers.index(cols[0])])
            elif k == 1:
                spec[name] = (cols, (lambda a: lambda y: a * np.cos(y))(a))
                v = a * np.cos(dy[:, drivers.index(cols[0])])
            else:
                co = np.arange(1, k + 1) * a
                spec[name] = (cols, (lambda co: lambda Y: (Y @ co) + Y[:, 0] * Y[:, -1])(co))
                Y = np.column_stack([dy[:, drivers.index(c)] for c in cols])
                v = Y @ co + Y[:, 0] * Y[:, -1]
        inst.append(name)
        want.append(v)
    if not inst:
        case.reject()
    case.note(drivers=drivers, instruments={k: (v[0] if isinstance(v, tuple) else "own") for k, v in spec.items()}, dy=dy)
    for k, v in list(spec.items()):                              # payoffs may come back as a column, a list or a labelled series
        wrap = case.choice([None, None, lambda x: np.asarray(x)[:, None], lambda x: list(np.asarray(x)), lambda x: pd.Series(np.asarray(x), index=range(5, 5 + len(x)))])
        if wrap is not None:
            g = v[1] if isinstance(v, tuple) else v
            h = (lambda g, wrap: lambda y: wrap(g(y)))(g, wrap)
            spec[k] = (v[0], h) if isinstance(v, tuple) else h
    fn, got_names = pj.compose_repricers(spec, drivers if case.bool() else pd.Index(drivers))
    case.check(list(got_names) == inst, "instrument order", got=got_names)
    out = fn(dy)
    case.close(out, np.column_stack(want), "composed payoffs", rtol=1e-12, atol=1e-13)
    o = case.perm(K)
    fn2, names2 = pj.compose_repricers(spec, [drivers[j] for j in o])
    case.check(list(names2) == inst, "instrument order after shuffling drivers")
    case.close(fn2(dy[:, o]), np.column_stack(want), "payoffs depend on driver column order", rtol=1e-12, atol=1e-13)
    if K == 1:
        case.close(fn(dy[:, 0]), np.column_stack(want), "one-dimensional driver changes", rtol=1e-12, atol=1e-13)
    f = lambda y: y
    for bad, what in (({**spec, "zz": f}, "instrument without a driver of its name"), ({**spec, "zz": ("nope", f)}, "unknown driver"),
                      ({**spec, "zz": (["nope"], f)}, "unknown driver"), ({**spec, "zz": ([drivers[0], "nope"], f)}, "unknown driver among known")):
        case.raises(lambda: pj.compose_repricers(bad, drivers), what, KeyError)
    for bad in (5, "text", (drivers[0],), (drivers[0], 3), [drivers[0], f], (drivers[0], f, 1), None):
        case.raises(lambda: pj.compose_repricers({**spec, "zz": bad}, drivers), f"malformed specification {bad!r}", (TypeError, ValueError, KeyError))
    case.nontrivial(len(inst) > 1 and not np.array_equal(o, np.arange(K)))
