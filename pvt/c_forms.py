"""C43: only the numbers count — integer or float, contiguous or strided, writable or not, array, list or table."""
import copy, dataclasses, warnings
from types import SimpleNamespace
import numpy as np
import pandas as pd
from .core import facet
from .c_mv import lib
from . import c_pure


# ------------------------------------------------------------------ results as plain numbers
def numbers(x, depth=0):
    """Nested list of float arrays; containers, labels and dtypes dropped."""
    if depth > 10 or x is None or isinstance(x, (str, bytes)) or (callable(x) and not hasattr(x, "__dataclass_fields__")):
        return []
    if isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating)):
        return [np.array([float(x)])]
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return [x.astype(float).reshape(-1)] if x.dtype.kind in "fiub" else [a for v in x.ravel() for a in numbers(v, depth + 1)]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in numbers(v, depth + 1)]
    if dataclasses.is_dataclass(x) or hasattr(x, "__dict__"):
        return [a for k, v in sorted(vars(x).items()) if "name" not in k and k != "metadata" for a in numbers(v, depth + 1)]
    return []


def attempt(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", f()
        except Exception as exc:                                     # noqa: BLE001 - compared, not judged
            return "error", (type(exc).__name__, str(exc)[:160])


def apart(a, b, tol):
    a, b = numbers(a), numbers(b)
    if len(a) != len(b):
        return f"{len(a)} / {len(b)} parts"
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return f"part {i}: {x.shape} / {y.shape}"
        s = tol * max(1.0, float(np.max(np.abs(y[np.isfinite(y)]), initial=0.0))) if tol > 1e-8 else 1e-12
        ok = np.isclose(x, y, rtol=tol, atol=s, equal_nan=True)
        if not np.all(ok):
            k = int(np.argmin(ok))
            return f"part {i}, entry {k}: {x[k]!r} / {y[k]!r}"
    return None


# ------------------------------------------------------------------ forms of one array
def _strided(x):
    y = np.full(tuple(2 * s for s in x.shape), 7, dtype=x.dtype)
    v = y[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def _backwards(x):
    k = tuple(slice(None, None, -1) for _ in x.shape)
    return np.ascontiguousarray(x[k])[k]


def _readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def _listed(x):
    return x.tolist()


def _tuples(x):
    return tuple(map(_tuples, x)) if np.ndim(x) else x.item()


LAYOUT = {"fortran": np.asfortranarray, "strided": _strided, "backwards": _backwards, "readonly": _readonly}
DTYPE = {"int64": lambda x: x.astype(np.int64), "int32": lambda x: x.astype(np.int32)}
LISTS = {"list of floats": _listed, "list of ints": lambda x: x.astype(int).tolist(), "tuple": lambda x: _tuples(x.astype(int))}
FRAMES = {"table": lambda x: (pd.Series if x.ndim == 1 else pd.DataFrame)(x), "integer table": lambda x: (pd.Series if x.ndim == 1 else pd.DataFrame)(x.astype(np.int64))}


def form(case, x, kinds):
    """x in a drawn form, with the name of the form."""
    table = {}
    for k in kinds:
        table.update({"l": LAYOUT, "d": DTYPE, "s": LISTS, "f": FRAMES}[k])
    if "d" not in kinds:
        table.pop("integer table", None)
    name = case.choice(sorted(table))
    y = table[name](np.asarray(x, float))
    if "l" in kinds and isinstance(y, np.ndarray) and name in DTYPE and case.chance(0.3):
        extra = case.choice(sorted(LAYOUT))
        y, name = LAYOUT[extra](y), f"{name} {extra}"
    return y, name


def scalar(case, x):
    k = case.int(0, 3)
    return [int(x), np.int64(x), np.float64(x), np.int32(x)][k], ["int", "np.int64", "np.float64", "np.int32"][k]


# ------------------------------------------------------------------ calls with whole-number inputs
INTS = {}


def whole(name, kinds=None, tol=1e-9):
    """fn(case) -> (arrays, scalars, f(arrays, scalars)); `kinds` per array, 'ld' (any layout, any integer type) unless stated."""
    def deco(fn):
        INTS[name] = (fn, kinds or {}, tol)
        return fn
    return deco


def iarr(case, lo, hi, *shape):
    return np.array([case.int(lo, hi) for _ in range(int(np.prod(shape)))], float).reshape(shape)


def ipanel(case, T=None, n=None, amp=9):
    T, n = T or case.int(8, 20), n or case.int(2, 4)
    R = np.rint(amp * 0.5 * (case.normal(T, n) + 0.3 * case.normal(T, 1)))
    R[:n, :n] += np.diag(1.0 + np.arange(n)) * 2                     # no two columns alike
    return R


def icov(case, n):
    B = iarr(case, -2, 2, n, n)
    return B @ B.T + np.eye(n) * (1 + np.arange(n))


def iprob(T):
    return np.full(T, 1.0 / T)


F = "ldf"
S = "lds"
SF = "ldsf"


@whole("sample moments", {"R": F})
def _(c):
    R = ipanel(c)
    p = iprob(len(R))
    if c.chance(0.3):
        p = np.eye(len(R))[c.int(0, len(R) - 1)]
    return dict(R=R), {}, lambda a, s: lib().estimate_sample_moments(a.R, p)


@whole("estimators", {"R": F}, tol=1e-7)
def _(c):
    mean = c.choice(["sample", "jorion", "james_stein", "huber", "median_of_means"])
    cov = c.choice(["sample", "ledoit_wolf", "oas", "nls", "poet", "tyler", "ewma"])
    ck = {"poet": dict(k=1), "tyler": dict(shrinkage=0.1)}.get(cov, {})
    mk = dict(random_state=5) if mean == "median_of_means" else {}
    R = ipanel(c, T=c.int(16, 24))
    if cov == "poet":                                              # a tied first factor is not unique
        d = [np.linalg.eigvalsh(m) for m in (np.cov(R.T), np.corrcoef(R.T))]
        cov = "poet" if min(x[-1] - x[-2] for x in d) > 0.05 else "sample"
        ck = ck if cov == "poet" else {}
    c.event(f"estimator {mean}")
    c.event(f"estimator {cov}")
    return dict(R=R), {}, lambda a, s: lib().estimate_moments(a.R, None, mean_estimator=mean, cov_estimator=cov, mean_kwargs=mk, cov_kwargs=ck)


@whole("mean shrinkage", {"m": F, "S": F})
def _(c):
    n = c.int(3, 5)
    k = c.choice(["shrink_mean_jorion", "shrink_mean_james_stein"])
    return dict(m=iarr(c, -5, 9, n), S=icov(c, n)), dict(T=c.int(10, 60)), lambda a, s: getattr(lib(), k)(a.m, a.S, int(s.T))


@whole("variance", {"w": F, "S": F})
def _(c):
    n = c.int(2, 4)
    w = iarr(c, -3, 3, n) if c.bool() else iarr(c, -3, 3, n, c.int(1, 3))
    return dict(w=w, S=icov(c, n)), {}, lambda a, s: (lib().portfolio_variance(a.w, a.S), lib().portfolio_volatility(a.w, a.S))


@whole("tail risk", {"R": F})
def _(c):
    from pyvallocation.utils import functions as fn
    R = ipanel(c)
    w = iarr(c, -3, 3, R.shape[1]) if c.bool() else iarr(c, -3, 3, R.shape[1], c.int(1, 3))
    conf, dm = c.choice([0.5, 0.75, 0.9]), c.bool()
    return dict(R=R, w=w), {}, lambda a, s: [f(a.w, a.R, None, confidence=conf, demean=dm) for f in (fn.portfolio_cvar, fn.portfolio_var)]


@whole("reports", {"R": F, "w": SF})
def _(c):
    R = ipanel(c, amp=3)
    w = iarr(c, -3, 3, R.shape[1])
    k, seed = c.int(0, 3), c.int(0, 99)
    conf = c.choice([0.5, 0.9])
    up = lambda y: np.expm1(0.001 * y)
    hz = [1, 3]
    return dict(R=R, w=w), {}, lambda a, s: [lambda: lib().scenario_pnl(a.w, a.R), lambda: lib().performance_report(a.w, a.R, confidence=conf, demean=True),
                                             lambda: lib().horizon_report(a.w, a.R, horizons=hz, n_simulations=20, reprice=up, seed=seed),
                                             lambda: lib().drawdown_quantile(a.w, a.R, 3, n_paths=20, reprice=up, seed=seed)][k]()


@whole("projection of invariants", {"R": F})
def _(c):
    R = ipanel(c, amp=2)
    if c.chance(0.3):
        R = R[:, 0]
    seed, k = c.int(0, 99), c.int(0, 1)
    rp = c.choice([None, lib().reprice_exp, lambda y: lib().reprice_taylor(y, delta=0.5, gamma=0.25), lambda y: y / 4])
    return dict(R=R), dict(h=c.int(1, 4), m=c.int(1, 9)), lambda a, s: [lambda: lib().project_scenarios(a.R, investment_horizon=int(s.h), n_simulations=int(s.m), reprice=rp, seed=seed),
                                                                      lambda: lib().simulate_paths(a.R, horizon=int(s.h), n_paths=int(s.m), reprice=rp, seed=seed)][k]()


@whole("projection of moments", {"m": F, "S": F})
def _(c):
    n = c.int(1, 4)
    k = c.int(0, 2)
    return dict(m=iarr(c, 0, 3, n), S=icov(c, n) if k != 1 else np.minimum(icov(c, n), 3)), dict(h=c.int(1, 12)), lambda a, s: [
        lambda: lib().project_mean_covariance(a.m, a.S, s.h), lambda: lib().log2simple(a.m, a.S), lambda: lib().simple2log(a.m, a.S)][k]()


@whole("return conversions", {"R": F})
def _(c):
    from pyvallocation.utils import projection as pj
    R = np.abs(ipanel(c, amp=3))
    R = R[:, 0] if c.chance(0.3) else R
    return dict(R=R), {}, lambda a, s: (pj.convert_scenarios_compound_to_simple(a.R), pj.convert_scenarios_simple_to_compound(a.R))


@whole("repricing", {"g": S, "th": S, "y": "ld"})
def _(c):
    n, T = c.int(1, 3), c.int(1, 6)
    k = c.int(0, 2)
    y = iarr(c, -3, 3, T, n)
    tau = c.float(0.01, 0.9)
    inst = {f"i{j}": ([f"d{j}"], lambda z: lib().reprice_taylor(z, delta=0.5, gamma=0.25)) for j in range(n)}
    inst["sum"] = ([f"d{j}" for j in range(n)], (lambda z: np.expm1(0.1 * z.sum(axis=1))) if n > 1 else (lambda z: np.expm1(0.1 * z)))
    return dict(y=y, g=iarr(c, -2, 2, n), th=iarr(c, -2, 2, n), y0=iarr(c, -2, 2, n)), {}, lambda a, s: [
        lambda: (lib().reprice_taylor(a.y, theta=a.th, delta=a.g, gamma=a.g, tau=tau), lib().reprice_exp(a.y)),
        lambda: lib().make_repricing_fn(lambda Y: np.exp(0.3 * Y).sum(axis=-1), a.y0)(a.y),
        lambda: lib().compose_repricers(inst, [f"d{j}" for j in range(n)])[0](a.y)][k]()


def _wrapper(a, s, kw):
    pv = lib()
    return pv.PortfolioWrapper.from_moments(a.m, a.S, **kw)


@whole("moment portfolios", {"m": F, "S": F, "lb": "x"}, tol=2e-5)
def _(c):
    n = c.int(2, 4)
    k = c.int(0, 5)
    kw = c.choice([dict(), dict(bounds=(0, 1)), dict(bounds=(-1, 1), total_weight=1), dict(long_only=False, bounds=(-1, 2)), dict(return_lower_bound=0)][:4])
    m = iarr(c, -3, 9, n)
    m[0] += 1 if np.ptp(m) == 0 else 0
    t = int(np.floor(m.mean()))

    def f(a, s):
        w = _wrapper(a, s, kw)
        return [lambda: w.variance_frontier(4), lambda: w.min_variance_at_return(s.t), lambda: w.maximize_sharpe(risk_free_rate=s.rf) if hasattr(w, "maximize_sharpe") else w.max_sharpe(s.rf),
                lambda: w.robust_lambda_frontier(num_portfolios=3, max_lambda=s.one), lambda: w.solve_robust_gamma_portfolio(s.one, s.big),
                lambda: w.relaxed_risk_parity_portfolio(lambda_reg=s.one)][k]()
    c.event(f"portfolio {k}")
    return dict(m=m, S=icov(c, n)), dict(t=t, rf=-20, one=1, big=50), f


@whole("portfolios with costs", {"m": F, "S": F, "w0": SF, "cost": SF}, tol=2e-5)
def _(c):
    n = c.int(2, 4)
    w0 = np.zeros(n)
    w0[c.int(0, n - 1)] = 1
    kind = c.choice(["proportional_costs", "market_impact_costs"])
    m = iarr(c, -3, 9, n)
    k = c.int(0, 1)

    def f(a, s):
        w = lib().PortfolioWrapper(lib().AssetsDistribution(mu=a.m, cov=a.S), costs=lib().TransactionCosts(initial_weights=a.w0, **{kind: a.cost}))
        return [lambda: w.variance_frontier(3), lambda: w.min_variance_at_return(s.t)][k]()
    return dict(m=m, S=icov(c, n), w0=w0, cost=iarr(c, 0, 3, n)), dict(t=int(np.floor(m.min()))), f


@whole("scenario portfolios", {"R": F}, tol=2e-4)
def _(c):
    R = ipanel(c)
    k, al = c.int(0, 1), c.choice([0.2, 0.35])

    def f(a, s):
        w = lib().PortfolioWrapper(lib().AssetsDistribution(scenarios=a.R))
        r = w.cvar_frontier(num_portfolios=3, alpha=al) if k else w.min_cvar_at_return(s.t, alpha=al)
        return (r.returns, r.risks) if k else r[1:]                  # an LP may have several optimal portfolios
    return dict(R=R), dict(t=int(np.floor(R.mean() - 0.25))), f


@whole("constraints", {"G": S, "h": S, "A": S, "b": S, "lo": S})
def _(c):
    from pyvallocation.utils import constraints as co
    n = c.int(2, 4)
    G, A = iarr(c, -2, 2, 2, n), iarr(c, 0, 1, 1, n)
    A[0, 0] = 1

    def f(a, s):
        lo = list(zip(np.asarray(a.lo).tolist(), [s.one] * n))
        return co.build_G_h_A_b(n, total_weight=s.one, long_only=False, bounds=lo, additional_G_h=[(row, v) for row, v in zip(a.G, np.asarray(a.h).ravel())],
                                additional_A_b=[(a.A[0], np.asarray(a.b).ravel()[0])])
    return dict(G=G, h=iarr(c, 0, 3, 2), A=A, b=iarr(c, 0, 1, 1), lo=iarr(c, -2, 0, n)), dict(one=1), f


@whole("whole shares", {"w": "ldf", "px": "ldf"})
def _(c):
    n = c.int(1, 4)
    w = np.zeros(n)
    w[c.int(0, n - 1)] = 1
    meth = c.choice(["greedy", "mip"])

    def f(a, s):
        lab = [f"a{i}" for i in range(n)]
        r = lib().discretize_weights(pd.Series(np.asarray(a.w), index=lab), pd.Series(np.asarray(a.px), index=lab), s.v, method=meth)
        return r
    return dict(w=w, px=iarr(c, 1, 60, n)), dict(v=c.int(50, 5000)), f


@whole("entropy pooling", {"A": "ld", "b": "ld", "G": "ld", "h": "ld"}, tol=1e-6)
def _(c):
    T = c.int(6, 14)
    x = iarr(c, -4, 5, T)
    x[:2] = [-4, 5]
    use = c.bool()
    return dict(A=np.vstack([np.ones(T), x]), b=np.array([1.0, c.int(-1, 2)]), G=iarr(c, -3, 3, 1, T), h=np.array([3.0])), {}, lambda a, s: lib().entropy_pooling(
        iprob(T), a.A, a.b, **(dict(G=a.G, h=a.h) if use else {}))


@whole("flexible views", {"R": F}, tol=1e-6)
def _(c):
    R = ipanel(c, T=c.int(14, 24))
    k = c.choice(["mean", "vol", "corr"])
    op = c.choice(["==", ">="])

    def f(a, s):
        names = list(a.R.columns) if isinstance(a.R, pd.DataFrame) else [str(i) for i in range(R.shape[1])]
        v = {"mean": dict(mean_views={names[0]: (op, s.v)}), "vol": dict(vol_views={names[0]: ("<=", s.sd)}), "corr": dict(corr_views={(names[0], names[1]): ("==", s.z)})}[k]
        p = lib().FlexibleViewsProcessor(a.R, **v)
        return p.get_posterior_probabilities(), p.get_posterior()
    return dict(R=R), dict(v=int(np.ceil(R[:, 0].mean())), sd=max(1, int(R[:, 0].std())), z=0), f


@whole("Black-Litterman", {"S": F, "m": F, "Q": S, "P": "ld"})
def _(c):
    n = c.int(2, 4)
    P = np.eye(n)[: c.int(1, n)]
    if c.bool():
        P[0, -1] -= 1
    src = c.choice(["prior_mean", "pi"])
    P = P if np.all(np.abs(P).sum(axis=1) > 0) else np.eye(n)[:1]

    def f(a, s):
        b = lib().BlackLittermanProcessor(prior_cov=a.S, **{src: a.m}, mean_views={i: s.v for i in range(n - 1)} if not isinstance(a.m, pd.Series) and not isinstance(a.S, pd.DataFrame) else {i: s.v for i in range(n - 1)}, tau=s.tau)
        return b.get_posterior()
    return dict(S=icov(c, n), m=iarr(c, -3, 9, n)), dict(v=c.int(-3, 5), tau=1), f


@whole("normal-inverse-Wishart", {"m0": F, "S0": F, "m1": F, "S1": F})
def _(c):
    n = c.int(1, 4)

    def f(a, s):
        q = lib().RobustBayesPosterior.from_niw(prior_mu=a.m0, prior_sigma=a.S0, t0=s.t0, nu0=s.nu0, sample_mu=a.m1, sample_sigma=a.S1, n_obs=s.T)
        return q, q.sigma1, q.mean_uncertainty_cov_log(annualization_factor=s.h), q.mean_uncertainty_cov_simple(annualization_factor=1), q.cred_radius_mu(0.8), q.cred_radius_sigma_factor(0.7)
    return dict(m0=iarr(c, -3, 3, n), S0=icov(c, n), m1=iarr(c, -3, 3, n), S1=icov(c, n)), dict(t0=c.int(1, 30), nu0=c.int(3, 30), T=c.int(1, 50), h=c.int(1, 12)), f


@whole("stress tests", {"R": F, "w": F, "sh": S}, tol=1e-9)
def _(c):
    R = ipanel(c)
    n = R.shape[1]
    k = c.int(0, 3)
    x = R[:, 0].copy()
    sc = c.choice([0.5, 2.0])

    def f(a, s):
        pv = lib()
        return [lambda: pv.stress_test(a.w, a.R, transform=pv.linear_map(scale=sc, mean_shift=a.sh)), lambda: pv.exp_decay_stress(a.w, a.R, half_life=s.hl),
                lambda: pv.kernel_focus_stress(a.w, a.R, focus_series=a.x, bandwidth=s.bw), lambda: pv.stress_test(a.w, a.R, transform=pv.linear_map(matrix=a.M))][k]()
    return dict(R=R, w=iarr(c, 0, 3, n), x=x, sh=iarr(c, -2, 2, n), M=iarr(c, -1, 2, n, n)), dict(hl=c.int(1, 9), bw=c.int(1, 5)), f


@whole("blends of samples", {"W": F, "q": SF}, tol=1e-5)
def _(c):
    from pyvallocation import ensembles as en
    n, m = c.int(2, 4), c.int(3, 6)
    W = iarr(c, -1, 2, n, m)
    k = c.int(0, 1)

    def f(a, s):
        q = np.asarray(a.q) if isinstance(a.q, pd.Series) else a.q
        return [lambda: en.average_exposures(a.W, q), lambda: np.asarray(en.exposure_stacking(a.W, int(s.L)))][k]()
    return dict(W=W, q=iarr(c, 0, 3, m) + 1), dict(L=2), f


@whole("probabilities", {"p": "lds", "x": F})
def _(c):
    T = c.int(4, 12)
    x = iarr(c, -9, 9, T)
    x[0] = 20
    p = np.zeros(T)
    p[c.int(0, T - 1)] = 1
    k = c.int(0, 4)
    return dict(x=x, p=p), dict(h=c.int(1, 5), n=T), lambda a, s: [
        lambda: lib().generate_gaussian_kernel_probabilities(a.x, h=s.h), lambda: lib().silverman_bandwidth(a.x), lambda: lib().compute_effective_number_scenarios(np.asarray(a.p)),
        lambda: lib().generate_exp_decay_probabilities(int(s.n), s.h), lambda: lib().resolve_probabilities(a.p, T)][k]()


@whole("matrix repair")
def _(c):
    from pyvallocation.utils import validation as va
    n = c.int(2, 4)
    M = icov(c, n)
    if c.bool():
        M = M - np.eye(n) * c.int(0, 12)
    return dict(S=M), {}, lambda a, s: (bool(va.is_psd(a.S)), va.ensure_psd_matrix(a.S))


@whole("frontier queries", {"w": "ld", "r": "ld", "k": "ld"})
def _(c):
    n, m = c.int(2, 4), c.int(2, 5)
    r, k = np.sort(iarr(c, 0, 9, m)) + np.arange(m), np.sort(iarr(c, 1, 9, m)) + np.arange(m)
    W = iarr(c, 0, 3, n, m)
    q = c.int(0, 6)

    def f(a, s):
        fr = lib().PortfolioFrontier(weights=a.w, returns=a.r, risks=a.k, risk_measure="Volatility")
        return [lambda: fr.at_return(s.r), lambda: fr.at_risk(s.k), lambda: fr.tangency(s.z), fr.min_risk, fr.max_return, lambda: fr.at_percentile(s.pc), lambda: (fr.to_frame(), fr.risk_percentiles(), fr.closest_risk(s.k))][q]()
    return dict(w=W, r=r, k=k), dict(r=int(r[0]) + 1 if r[0] + 1 <= r[-1] else int(r[0]), k=int(k[0]) + 1 if k[0] + 1 <= k[-1] else int(k[0]), z=0, pc=c.choice([0, 40, 50, 100])), f


@facet("C43", quick=2500, rule="a public function on whole-number data, with every array drawn as float, 32- or 64-bit integer, strided, reversed, Fortran-ordered or read-only array, and (where documented) nested list, tuple or table, and every number as a Python or numpy scalar: same values as with contiguous floats, or the same refusal; non-trivial = the call succeeds")
def whole_numbers_mean_the_same(case):
    c_pure.settle()
    name = case.choice(sorted(INTS))
    make, kinds, tol = INTS[name]
    arrays, scalars, f = make(case)
    base_a, base_s = SimpleNamespace(**{k: v.copy() for k, v in arrays.items()}), SimpleNamespace(**{k: float(v) for k, v in scalars.items()})
    st, ref = attempt(lambda: f(base_a, base_s))
    va, vs, names = {}, {}, {}
    for k, v in arrays.items():
        va[k], names[k] = (v.copy(), "floats") if case.chance(0.25) else form(case, v, kinds.get(k, "ld"))
    for k, v in scalars.items():
        vs[k], names[k] = scalar(case, v)
    case.note(call=name, forms=names, arrays=arrays, scalars=scalars)
    st2, got = attempt(lambda: f(SimpleNamespace(**va), SimpleNamespace(**vs)))
    case.event(f"{name}: {st}")
    case.check(st == st2, f"{name}: floats {st} {str(ref)[:200]}; {names}: {st2} {str(got)[:200]}")
    if st == "ok":
        d = apart(got, ref, tol)
        case.check(d is None, f"{name} with {names} differs from the same numbers as floats: {d}")
    case.nontrivial(st == "ok")


# ------------------------------------------------------------------ memory layout and row labels of everything
def relaid(case, x, depth=0):
    """The same data with every array in another memory layout and every table built another way."""
    if depth > 6 or x is None or isinstance(x, (str, bytes, int, float, np.generic)):
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "fiu" and x.ndim:
        return LAYOUT[case.choice(sorted(LAYOUT))](x)
    if isinstance(x, pd.Series):
        k = case.choice(sorted(LAYOUT))
        return pd.Series(LAYOUT[k](x.to_numpy()), index=x.index, name=x.name, copy=False) if x.dtype.kind in "fiu" else x
    if isinstance(x, pd.DataFrame) and all(d.kind in "fiu" for d in x.dtypes):
        how = case.int(0, 3)
        if how == 0:                                                  # one block per column
            y = pd.concat([x.iloc[:, [i]].copy() for i in range(x.shape[1])], axis=1)
            y.columns = x.columns
            return y
        if how == 1:                                                  # a slice of something larger
            y = pd.concat([x, x.iloc[:, ::-1]], axis=0).iloc[: len(x)]
            return y
        if how == 2:
            return pd.DataFrame(np.asfortranarray(x.to_numpy()), index=x.index, columns=x.columns, copy=False)
        return x.T.copy().T
    if isinstance(x, dict):
        return {k: relaid(case, v, depth + 1) for k, v in x.items()}
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(relaid(case, v, depth + 1) for v in x)
    if isinstance(x, list):
        return [relaid(case, v, depth + 1) for v in x]
    if dataclasses.is_dataclass(x) and type(x).__name__ in ("PortfolioFrontier", "RobustBayesPosterior", "AssetsDistribution", "TransactionCosts"):
        y = copy.copy(x)
        for f in dataclasses.fields(x):
            object.__setattr__(y, f.name, relaid(case, getattr(x, f.name), depth + 1))
        return y
    return x


# solver answers move by their tolerance when a product rounds differently; everything else only by rounding
LOOSE = {"var frontier", "var target", "cvar frontier", "cvar target", "robust frontier", "gamma", "rrp", "rrp frontier", "from posterior", "averages", "failing stack", "assembled ensemble",
         "wrapper specs", "selections", "flexible views", "pooling", "stress", "moments", "single estimators", "moment views", "plots"}


@facet("C43", quick=700, rule="any call of the library on data whose arrays are Fortran-ordered, strided, reversed or read-only and whose tables are built column by column, sliced from larger ones or transposed: same result as on plain copies; non-trivial = the call succeeds")
def layout_is_irrelevant(case):
    c_pure.settle()
    P = c_pure.pool(case)
    nm, pr = c_pure.pick(case, P)
    case.note(call=nm, params=pr, labels=P["lab"], R=P["R"], mu=P["mu"], cov=P["cov"], spec=P["spec"])
    Q = {k: relaid(case, v) for k, v in copy.deepcopy(P).items()}
    if case.bool():                                                   # what was built from the data is built again
        pv = lib()
        Q["dist"] = pv.AssetsDistribution(mu=Q["mu"], cov=Q["cov"])
        Q["sdist"] = pv.AssetsDistribution(scenarios=Q["R"], probabilities=Q["p"])
        Q["wr"], Q["swr"] = pv.PortfolioWrapper(Q["dist"], constraints=Q["spec"]), pv.PortfolioWrapper(Q["sdist"])
    s1, a = c_pure.run(nm, P, pr)
    s2, b = c_pure.run(nm, Q, pr)
    case.event(f"{nm}: {s1}")
    case.check(s1 == s2, f"`{nm}`: {s1} {str(a)[:200]}; with the same data laid out otherwise: {s2} {str(b)[:200]}", params=pr)
    if s1 == "ok":
        if nm == "single estimators" and pr["k"] == 5:                # factor loadings have no sign
            a, b = a[0], b[0]
        d = apart(b, a, 3e-4 if nm in LOOSE else 1e-8)
        case.check(d is None, f"`{nm}` depends on the memory layout: {d}", params=pr)
    case.nontrivial(s1 == "ok")
