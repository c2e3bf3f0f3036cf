"""C36: calls are pure — inputs and global settings untouched, repeats agree, histories do not matter."""
import copy, dataclasses, os, pickle, struct, warnings
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, names, probs, simplex_point
from .c_mv import lib


# ------------------------------------------------------------------ canonical form of any object
OWN = ("_uncertainty_cov", "_return_type", "_nu1", "_n_assets", "_T1", "_posterior")   # private state that decides results; other private attributes may cache


def canon(x, depth=0):
    """Nested comparable form; arrays stay arrays."""
    if depth > 12:
        return ("deep",)
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return ("f", float(x))
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.kind, x.shape, x.copy())
    if isinstance(x, pd.Series):
        return ("s", str(x.name), tuple(map(repr, x.index)), canon(x.to_numpy(), depth + 1))
    if isinstance(x, pd.DataFrame):
        return ("d", tuple(map(repr, x.index)), tuple(map(repr, x.columns)), canon(x.to_numpy(), depth + 1))
    if isinstance(x, pd.Index):
        return ("i", tuple(map(repr, x)))
    if isinstance(x, dict):
        return ("m", [(repr(k), canon(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", type(x).__name__, [canon(v, depth + 1) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if callable(x) and not hasattr(x, "__dataclass_fields__"):
        return ("callable",)
    if dataclasses.is_dataclass(x) or hasattr(x, "__dict__"):
        return ("o", type(x).__name__, [(k, canon(v, depth + 1)) for k, v in sorted(vars(x).items()) if not k.startswith("_") or k in OWN])
    return ("r", repr(x))


def differs(a, b, tol, path=""):
    """None, or where two canonical forms differ."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:60]} / {str(b)[:60]}"
    if isinstance(a, (tuple, list)):
        if len(a) == 4 and isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] == "a":
            if a[1] != b[1] or a[2] != b[2]:
                return f"{path}: array {a[1]}{a[2]} / {b[1]}{b[2]}"
            if a[1] in "fiub":
                ok = np.isclose(a[3].astype(float), b[3].astype(float), rtol=tol, atol=tol, equal_nan=True) if tol else \
                    (a[3] == b[3]) | ((a[3] != a[3]) & (b[3] != b[3]))
                return None if np.all(ok) else f"{path}: values {a[3].ravel()[:6]} / {b[3].ravel()[:6]}"
            return None if list(map(repr, a[3].ravel())) == list(map(repr, b[3].ravel())) else f"{path}: entries"
        if len(a) != len(b):
            return f"{path}: length {len(a)} / {len(b)}"
        if len(a) == 2 and a[0] == "f" and b[0] == "f":
            x, y = a[1], b[1]
            ok = x == y or (x != x and y != y) or (tol and abs(x - y) <= tol * (1 + abs(y)))
            return None if ok else f"{path}: {x!r} / {y!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            tag = a[0] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) else str(i)
            d = differs(x, y, tol, f"{path}.{tag}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} / {b!r}"


def world_state():
    """Global settings no call may change."""
    import cvxopt.solvers as cs
    import matplotlib
    s = np.random.get_state()
    return ("l", "g", [("solver options", canon(dict(cs.options))), ("numpy random", ("l", "t", [s[0], s[1].copy().tolist(), s[2], s[3]])),
                       ("errstate", canon(np.geterr())), ("print options", canon({k: v for k, v in np.get_printoptions().items() if k != "formatter"})),
                       ("warning filters", [repr(f) for f in warnings.filters]),
                       ("matplotlib", ("l", "t", [str(matplotlib.rcParams.get(k)) for k in ("figure.figsize", "axes.prop_cycle", "lines.linewidth", "font.size", "axes.grid")])),
                       ("pandas", ("l", "t", [str(pd.get_option(k)) for k in ("mode.chained_assignment", "display.precision", "display.max_rows")]))])


# ------------------------------------------------------------------ shared objects
def pool(case):
    """Everything the calls of one history share."""
    pv = lib()
    n, T = case.int(2, 4), case.choice([24, 24, 24, 31])
    lab = names(case, n)
    frame = case.bool()
    R = np.clip(0.03 * (case.normal(T, n) + 0.4 * case.normal(T, 1)) + case.uniform(-0.005, 0.015, n) + 0.004 * np.sin(1 + np.arange(T)[:, None] * (1 + np.arange(n))), -0.5, 0.5)
    mu, S = moments(case, n, hetero=False)
    spec, wi = constraint_spec(case, n)
    p = probs(case, T, zeros=False)
    fr = (lambda X, idx=None: pd.DataFrame(X, columns=lab, index=idx)) if frame else (lambda X, idx=None: np.array(X))
    sr = (lambda v: pd.Series(v, index=lab)) if frame else (lambda v: np.array(v))
    sq = (lambda M: pd.DataFrame(M, index=lab, columns=lab)) if frame else (lambda M: np.array(M))
    key = (lambda i: lab[i]) if frame else (lambda i: i)
    P = dict(n=n, T=T, lab=lab)
    P["R"], P["mu"], P["cov"] = fr(R), sr(mu), sq(S)
    P["p"] = case.choice([lambda: p.copy(), lambda: pd.Series(p)])()
    P["p_raw"] = p * 7.0                                             # unnormalised, where accepted
    P["prices"] = fr(100 * np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)]))
    P["w"] = sr(wi)
    P["w_dict"] = {lab[i]: float(wi[i]) for i in range(n)}
    P["W"] = pd.DataFrame(np.column_stack([simplex_point(case, n) for _ in range(5)]), index=lab, columns=list("abcde")) if frame else np.column_stack([simplex_point(case, n) for _ in range(5)])
    P["spec"] = spec
    P["constraints"] = pv.Constraints(**copy.deepcopy(spec))
    P["costs"] = pv.TransactionCosts(initial_weights=sr(np.full(n, 1.0 / n)), market_impact_costs=sr(np.full(n, 0.05)), proportional_costs=sr(np.full(n, 0.001)))
    sd = R.std(0)
    m0 = R.mean(0)
    fk = (lambda i: lab[i]) if frame else str
    P["views"] = dict(mean_views={fk(0): [">=", float(m0[0] + 0.1 * sd[0])], (fk(0), fk(1)): ("between", -0.2, float(m0[0] - m0[1] + 0.6 * sd[0]))},
                      vol_views={fk(1): ("<=", float(1.05 * sd[1]))}, rank_mean=[fk(1), fk(0)] if case.chance(0.2) else None)
    P["bl_views"] = {key(0): 0.06, (key(0), key(1)): 0.01}
    P["conf"] = {key(0): 0.4, (key(0), key(1)): 0.7}
    P["last_prices"] = pd.Series(np.round(np.exp(case.uniform(np.log(5), np.log(300), n)), 2), index=lab)
    P["lots"] = {lab[i]: case.choice([1, 2, 5]) for i in range(n)}
    P["w_series"] = pd.Series(simplex_point(case, n), index=lab)
    P["reprice"] = {lab[0]: pv.reprice_exp, "mix": ([lab[0], lab[1]], lambda z: z[:, 0] + np.expm1(z[:, 1]))}
    P["inv_frame"] = pd.DataFrame(R, columns=lab)
    P["wm"] = simplex_point(case, 2)                                   # weights over repriced instruments
    P["budgets"] = simplex_point(case, n, 0.2)
    dist = pv.AssetsDistribution(mu=copy.deepcopy(P["mu"]), cov=copy.deepcopy(P["cov"]))
    sdist = pv.AssetsDistribution(scenarios=copy.deepcopy(P["R"]), probabilities=copy.deepcopy(P["p"]))
    P["dist"], P["sdist"] = dist, sdist
    P["wr"] = pv.PortfolioWrapper(dist, constraints=copy.deepcopy(spec))
    P["swr"] = pv.PortfolioWrapper(sdist)
    P["frontier"] = pv.PortfolioWrapper(dist).variance_frontier(num_portfolios=4)
    P["frontier2"] = pv.PortfolioWrapper(dist).robust_lambda_frontier(num_portfolios=3, max_lambda=1.0)
    P["niw"] = dict(prior_mu=copy.deepcopy(P["mu"]), prior_sigma=copy.deepcopy(P["cov"]), t0=20, nu0=30, sample_mu=sr(mu * 0.9), sample_sigma=sq(S * 1.1), n_obs=60)
    P["post"] = pv.RobustBayesPosterior.from_niw(**P["niw"])
    P["A"], P["b"] = np.vstack([np.ones(T), R[:, 0]]), np.array([1.0, float(p @ R[:, 0] + 0.1 * sd[0])])
    P["G"], P["h"] = R[:, 1][None, :].copy(), np.array([[float(p @ R[:, 1] + 0.05 * sd[1])]])
    P["solver"] = dict(maxiters=60, abstol=1e-9)
    P["stress_views"] = {lab[0]: ("<=", float(m0[0] - 0.1 * sd[0]))}
    P["M"] = np.eye(n) + 0.1
    P["bad_cov"] = S - 1e-3 * np.eye(n) * np.trace(S)
    P["horizons"] = [1, 3]
    P["mean_kw"], P["cov_kw"] = {}, {}
    P["sel_kw"] = dict(risk_free_rate=0.0)
    P["opt_kw"] = dict(num_portfolios=4, constraints=copy.deepcopy(spec))
    P["projection"] = dict(annualization_factor=12.0, log_to_simple=True)
    return P


# ------------------------------------------------------------------ calls
CALLS = {}


def call(name, draws=None):
    """draws: callable(case, pool) -> dict of parameters"""
    def deco(fn):
        CALLS[name] = (fn, draws or (lambda case, P: {}))
        return fn
    return deco


def _mid(P):
    return float(np.median(P["frontier"].returns)), float(np.median(P["frontier"].risks))


@call("var frontier", lambda c, P: dict(m=c.int(1, 5), own=c.int(0, 3)))
def _(P, m, own):
    kw = {1: dict(constraints=P["spec"]), 2: dict(constraints=P["constraints"], costs=P["costs"]), 3: dict(costs=P["costs"])}.get(own, {})
    return P["wr"].variance_frontier(m, **kw)


@call("var target", lambda c, P: dict(t=c.choice([c.float(-0.1, 0.3), 0.05, 0.052]), own=c.bool()))
def _(P, t, own):
    return P["wr"].min_variance_at_return(t, **(dict(constraints=P["spec"], costs=P["costs"]) if own else {}))


@call("fresh costs", lambda c, P: dict(q=c.choice([0.0, 0.02, 0.05, 1.0]), lin=c.choice([0.0005, 0.002, 0.01]), k=c.int(0, 2)))
def _(P, q, lin, k):
    v = lambda x: pd.Series(x, index=P["lab"]) if isinstance(P["mu"], pd.Series) else x
    n = P["n"]
    costs = lambda: lib().TransactionCosts(initial_weights=v(np.full(n, 1.0 / n)), market_impact_costs=v(np.full(n, q)), proportional_costs=v(np.full(n, lin)))
    spec = dict(bounds=(0.0, 1.0 - 10 * lin), long_only=True)
    return [lambda: P["wr"].min_variance_at_return(0.0, costs=costs(), constraints=spec), lambda: P["wr"].robust_lambda_frontier(lambdas=[0.3], costs=costs(), constraints=spec),
            lambda: P["swr"].min_cvar_at_return(-0.01, alpha=0.2, costs=costs(), constraints=spec)][k]()


@call("fresh constraints", lambda c, P: dict(tw=c.choice([1.0, 0.8, 1.25]), hi=c.choice([1.0, 0.9]), lo=c.choice([0.0, 0.05]), group=c.choice([None, 0.4, 0.6]), k=c.int(0, 3)))
def _(P, tw, hi, lo, group, k):
    spec = dict(bounds={j: (0.0, 1.0) for j in range(P["n"])} if k == 3 else (lo, hi * tw), long_only=True, total_weight=tw)
    if group is not None:
        spec["additional_G_h"] = [(np.eye(P["n"])[0], group)]
    return [lambda: P["wr"].min_variance_at_return(0.0, constraints=spec), lambda: P["wr"].robust_lambda_frontier(lambdas=[0.3], constraints=spec),
            lambda: P["swr"].min_cvar_at_return(-0.01, alpha=0.2, constraints=spec), lambda: P["wr"].variance_frontier(2, constraints=spec)][k]()


@call("cvar frontier", lambda c, P: dict(own=c.int(0, 2), convex=c.bool(), a=c.choice([0.1, 0.12, 0.2, 0.25])))
def _(P, own, convex, a):
    kw = {1: dict(constraints=P["spec"]), 2: dict(costs=P["costs"])}.get(own, {})
    return P["swr"].cvar_frontier(num_portfolios=3, alpha=a, enforce_convexity=convex, **kw)


@call("simulated cvar", lambda c, P: dict(s=c.int(0, 2), t=c.choice([0.0, 0.01])))
def _(P, s, t):
    return P["wr"].min_cvar_at_return(t, alpha=0.2, seed=s, constraints=dict(long_only=True))


@call("cvar target", lambda c, P: dict(t=c.choice([c.float(-0.02, 0.03), 0.001, 0.0012]), a=c.choice([0.1, 0.12, 0.2])))
def _(P, t, a):
    return P["swr"].min_cvar_at_return(t, alpha=a)


@call("robust frontier", lambda c, P: dict(own=c.int(0, 2)))
def _(P, own):
    kw = {1: dict(constraints=P["constraints"], costs=P["costs"]), 2: dict(lambdas=[0.5, 0.1], return_cov=P["cov"])}.get(own, {})
    return P["wr"].robust_lambda_frontier(num_portfolios=3, **kw)


@call("gamma", lambda c, P: dict(g=c.float(0.1, 2)))
def _(P, g):
    return P["wr"].solve_robust_gamma_portfolio(g, 4.0, constraints=P["spec"])


@call("rrp", lambda c, P: dict(b=c.bool(), lam=c.choice([0.1, 0.3])))
def _(P, b, lam):
    return P["wr"].relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, risk_budgets=P["budgets"] if b else None)


@call("rrp frontier")
def _(P):
    return P["wr"].relaxed_risk_parity_frontier(num_portfolios=3, lambda_reg=0.2)


@call("from prices")
def _(P):
    return lib().PortfolioWrapper.from_prices(P["prices"], constraints=P["spec"], costs=P["costs"])


@call("from moments", lambda c, P: dict(rt=c.choice(["simple", "log"])))
def _(P, rt):
    return lib().PortfolioWrapper.from_moments(P["mu"], P["cov"], constraints=P["constraints"], return_type=rt)


@call("from bad covariance")
def _(P):
    return lib().PortfolioWrapper.from_moments(np.asarray(P["mu"]), P["bad_cov"])


@call("from scenarios", lambda c, P: dict(rt=c.choice(["simple", "log"]), raw=c.bool()))
def _(P, rt, raw):
    return lib().PortfolioWrapper.from_scenarios(P["R"], probabilities=P["p_raw" if raw else "p"], return_type=rt)


@call("from invariants", lambda c, P: dict(d=c.bool(), seed=c.int(0, 9)))
def _(P, d, seed):
    return lib().PortfolioWrapper.from_invariants(P["inv_frame"], horizon=3, n_simulations=20, p=P["p"], reprice=P["reprice"] if d else None, seed=seed)


@call("from posterior", lambda c, P: dict(h=c.choice([1.0, 12.0])))
def _(P, h):
    w = lib().PortfolioWrapper.from_robust_posterior(P["post"], annualization_factor=h)
    return w, w.robust_lambda_frontier(num_portfolios=2)


@call("selections", lambda c, P: dict(k=c.int(0, 7), which=c.choice(["frontier", "frontier2"])))
def _(P, k, which):
    f = P[which]
    ret, risk = float(np.median(f.returns)), float(np.median(f.risks))
    return [lambda: f.tangency(0.0), f.min_risk, f.max_return, lambda: f.at_risk(risk), lambda: f.at_return(ret),
            lambda: (f.at_percentile(40), f.risk_percentiles()), lambda: (f.to_frame(), f.to_samples()), lambda: f.closest_risk(risk)][k]()


@call("frontier to shares", lambda c, P: dict(col=c.int(0, 2)))
def _(P, col):
    from types import SimpleNamespace
    f = P["frontier"]
    prices = P["last_prices"] if f.asset_names is not None else pd.Series(P["last_prices"].to_numpy(), index=[f"Asset_{i}" for i in range(P["n"])])
    return f.as_discrete_allocation(col, prices, 20000.0)


@call("moments", lambda c, P: dict(m=c.choice(["sample", "jorion", "james_stein", "huber", "median_of_means"]), s=c.choice(["sample", "ledoit_wolf", "oas", "nls", "poet", "tyler", "glasso", "ewma"]), p=c.bool()))
def _(P, m, s, p):
    ck = dict(P["cov_kw"])
    mk = P["mean_kw"] if m != "median_of_means" else dict(random_state=5)
    if s == "poet":
        ck["k"] = 1
    if s == "tyler":
        ck["shrinkage"] = 0.1
    return lib().estimate_moments(P["R"], P["p"] if p else None, mean_estimator=m, cov_estimator=s, mean_kwargs=mk, cov_kwargs=ck)


@call("single estimators", lambda c, P: dict(k=c.int(0, 9)))
def _(P, k):
    pv = lib()
    R, mu, S, T = P["R"], P["mu"], P["cov"], P["T"]
    return [lambda: pv.estimate_sample_moments(R, P["p_raw"] / P["p_raw"].sum()), lambda: pv.shrink_mean_jorion(mu, S, T), lambda: pv.shrink_mean_james_stein(mu, S, T),
            lambda: pv.shrink_covariance_ledoit_wolf(R, S, target="constant_correlation"), lambda: pv.shrink_covariance_oas(R, assume_centered=False),
            lambda: pv.factor_covariance_poet(R, k=1, return_decomp=True), lambda: pv.sparse_precision_glasso(R, alpha=0.001), lambda: pv.covariance_ewma(R),
            lambda: pv.robust_mean_median_of_means(R, n_blocks=4, random_state=3), lambda: pv.shrink_covariance_nls(R)][k]()


@call("pooling", lambda c, P: dict(m=c.choice(["TNC", "L-BFGS-B"]), ineq=c.bool()))
def _(P, m, ineq):
    return lib().entropy_pooling(np.asarray(P["p"]), P["A"], P["b"], method=m, **(dict(G=P["G"], h=P["h"]) if ineq else {}))


@call("flexible views", lambda c, P: dict(seq=c.bool(), p=c.bool(), cvar=c.bool()))
def _(P, seq, p, cvar):
    pv = lib()
    kw = dict(P["views"])
    if cvar:
        k = next(iter(kw["vol_views"]))
        i = P["lab"].index(k) if isinstance(P["R"], pd.DataFrame) else int(k)
        x = np.sort(np.asarray(P["R"])[:, i])
        kw = dict(cvar_views={k: [float(x[: max(2, len(x) // 4)].mean()) - 1e-4, 0.2]})
    f = pv.FlexibleViewsProcessor(P["R"], P["p"] if p else None, sequential=seq, **kw)
    return f.get_posterior_probabilities(), f.get_posterior(), f.get_scenarios(), f.get_posterior()


@call("moment views", lambda c, P: dict(s=c.int(0, 9)))
def _(P, s):
    k = next(iter(P["views"]["vol_views"]))
    f = lib().FlexibleViewsProcessor(prior_mean=P["mu"], prior_cov=P["cov"], num_scenarios=80, random_state=s, mean_views={k: float(np.asarray(P["mu"])[1])})
    return f.get_posterior(), f.get_posterior_probabilities()


@call("black litterman", lambda c, P: dict(o=c.choice([None, "idzorek", "m"]), src=c.choice(["prior_mean", "pi", "market_weights"])))
def _(P, o, src):
    kw = {None: {}, "idzorek": dict(omega="idzorek", view_confidences=P["conf"]), "m": dict(omega=P["M"][:2, :2] * 0.01)}[o]
    b = lib().BlackLittermanProcessor(prior_cov=P["cov"], **{src: P["w"] if src == "market_weights" else P["mu"]}, mean_views=P["bl_views"], **kw)
    return b.get_posterior(), b.get_posterior()


PLEVEL = [0.5, 0.52, 0.75, 0.9, 0.95]


@call("niw", lambda c, P: dict(a=c.choice(PLEVEL), h=c.choice([1, 4, 4.2])))
def _(P, a, h):
    pv = lib()
    q = pv.RobustBayesPosterior.from_niw(**P["niw"])
    return q, q.mean_uncertainty_cov_simple(annualization_factor=h), q.sigma1, q.cred_radius_mu(a), q.cred_radius_sigma_factor(a)


@call("posterior helpers", lambda c, P: dict(k=c.int(0, 4), a=c.choice(PLEVEL), h=c.choice([1, 3, 3.3, 12])))
def _(P, k, a, h):
    q = P["post"]
    return [lambda: q.mean_uncertainty_cov_log(annualization_factor=h), lambda: q.mean_uncertainty_cov_simple(exact=True, annualization_factor=h), lambda: q.sigma1,
            lambda: q.cred_radius_mu(a), lambda: q.cred_radius_sigma_factor(a)][k]()


@call("averages", lambda c, P: dict(k=c.int(0, 4)))
def _(P, k):
    pv = lib()
    from pyvallocation import ensembles as en
    f = [P["frontier"], P["frontier2"]]
    return [lambda: en.average_exposures(P["W"], [1.0, 2, 3, 4, 0]), lambda: en.exposure_stacking(P["W"], 2, solver_options=P["solver"]),
            lambda: pv.average_frontiers(f, selections=[[0], [1]], ensemble_weights=[2.0, 1.0]), lambda: pv.exposure_stack_frontiers(f, L=2),
            lambda: pv.stack_portfolios([P["frontier"], P["frontier2"], P["w"]], selections=[[0], [1], None], L=2, solver_options=P["solver"])][k]()


@call("failing stack")
def _(P):
    from pyvallocation import ensembles as en
    return en.exposure_stacking(P["W"], 2, solver_options=dict(maxiters=1, abstol=1e-12, reltol=1e-12, feastol=1e-12))


@call("assembled ensemble", lambda c, P: dict(proj=c.bool(), opt=c.choice(["mean_variance", "robust", "rrp"]), comb=c.choice(["selected", "frontier"])))
def _(P, proj, opt, comb):
    pv = lib()
    a = pv.make_portfolio_spec("a", returns=pd.DataFrame(P["R"]), probabilities=P["p"], projection=P["projection"] if proj else None, mean_kwargs=P["mean_kw"], cov_kwargs=P["cov_kw"],
                               optimiser="mean_variance", optimiser_kwargs=P["opt_kw"], selector="min_risk", metadata=P["w_dict"])
    b = pv.make_portfolio_spec("b", returns=pd.DataFrame(P["R"]), optimiser=opt, optimiser_kwargs=dict(num_portfolios=3), selector="column", selector_kwargs=dict(index=1))
    r = pv.assemble_portfolio_ensemble([a, b], ensemble=("average", "stack"), combine=comb, stack_folds=2, ensemble_weights=None, stack_kwargs=dict(solver_options=P["solver"]))
    return r.frontiers, r.selections, r.ensembles, r.metadata


@call("wrapper specs")
def _(P):
    r = P["wr"].assemble_ensembles([P["wr"].make_ensemble_spec("x", optimiser_kwargs=dict(num_portfolios=3), selector="max_return"),
                                    P["wr"].make_ensemble_spec("y", optimiser="robust", optimiser_kwargs=dict(num_portfolios=3), selector="min_risk")], ensemble="average")
    return r.selections, r.ensembles


@call("shares", lambda c, P: dict(m=c.choice(["greedy", "mip"]), lots=c.bool()))
def _(P, m, lots):
    return lib().discretize_weights(P["w_series"], P["last_prices"], 5000.0, method=m, lot_sizes=P["lots"] if lots else None)


@call("reports", lambda c, P: dict(k=c.int(0, 4), raw=c.bool(), conf=c.choice([0.8, 0.82, 0.95]), seed=c.int(0, 3)))
def _(P, k, raw, conf, seed):
    pv = lib()
    p = P["p_raw" if raw else "p"]
    return [lambda: pv.scenario_pnl(P["w"], P["R"]), lambda: pv.performance_report(P["w"], P["R"], probabilities=p, demean=True, confidence=conf),
            lambda: pv.horizon_report(P["w"], P["R"], horizons=P["horizons"], n_simulations=30, p=p, seed=seed, confidence=conf),
            lambda: pv.drawdown_quantile(P["w"], P["R"], 4, n_paths=30, p=p, seed=seed, confidence=conf), lambda: pv.scenario_pnl(P["W"], P["R"])][k]()


@call("risk functions", lambda c, P: dict(k=c.int(0, 3)))
def _(P, k):
    from pyvallocation.utils import functions as fn
    return [lambda: fn.portfolio_cvar(P["W"], P["R"], np.asarray(P["p"]), confidence=0.8), lambda: fn.portfolio_var(np.asarray(P["w"]), P["R"], np.asarray(P["p"]), confidence=0.8, demean=True),
            lambda: lib().portfolio_variance(P["w"], P["cov"]), lambda: lib().portfolio_volatility(P["W"], P["cov"])][k]()


@call("stress", lambda c, P: dict(k=c.int(0, 5)))
def _(P, k):
    pv = lib()
    q = np.asarray(P["p"])[::-1]
    return [lambda: pv.stress_test(P["w"], P["R"], probabilities=P["p"], transform=lambda X: X * 1.5, stressed_probabilities=q),
            lambda: pv.exp_decay_stress(P["w"], P["R"], probabilities=P["p"], half_life=5), lambda: pv.kernel_focus_stress(P["W"], P["R"], focus_series=np.asarray(P["R"])[:, 0]),
            lambda: pv.entropy_pooling_stress(P["w"], P["R"], posterior_probabilities=q), lambda: pv.stress_test(P["w"], P["R"], transform=pv.linear_map(scale=2.0, mean_shift=np.full(P["n"], 0.01), matrix=P["M"])),
            lambda: pv.stress_invariants(P["inv_frame"], P["wm"], P["reprice"], stress_views=P["stress_views"], horizon=2, n_simulations=40, seed=2)][k]()


@call("probabilities", lambda c, P: dict(k=c.int(0, 5), hl=c.choice([2, 3, 6, 6.5]), bw=c.choice([0.01, 0.012, 0.02])))
def _(P, k, hl, bw):
    pv = lib()
    x = np.asarray(P["R"])[:, 0]
    return [lambda: pv.generate_uniform_probabilities(P["T"]), lambda: pv.generate_exp_decay_probabilities(P["T"], hl), lambda: pv.silverman_bandwidth(x),
            lambda: pv.generate_gaussian_kernel_probabilities(x, h=bw), lambda: pv.compute_effective_number_scenarios(np.asarray(P["p"])),
            lambda: pv.compute_effective_number_scenarios_hhi(np.asarray(P["p"]))][k]()


@call("projection", lambda c, P: dict(k=c.int(0, 5), s=c.int(0, 3), h=c.choice([2, 3]), m=c.choice([10, 15])))
def _(P, k, s, h, m):
    pv = lib()
    from pyvallocation.utils import projection as pj
    return [lambda: pv.project_scenarios(P["R"], investment_horizon=h, p=P["p"], n_simulations=m, reprice=pv.reprice_exp, seed=s),
            lambda: pv.simulate_paths(P["R"], horizon=h, n_paths=m, p=P["p"], seed=s), lambda: pv.log2simple(P["mu"], P["cov"]), lambda: pv.simple2log(*pv.log2simple(P["mu"], P["cov"])),
            lambda: pv.project_mean_covariance(P["mu"], P["cov"], 12), lambda: (pj.convert_scenarios_compound_to_simple(P["R"]), pj.convert_scenarios_simple_to_compound(P["R"]))][k]()


@call("repricing", lambda c, P: dict(k=c.int(0, 2)))
def _(P, k):
    pv = lib()
    X = np.asarray(P["R"])
    fn, nm = pv.compose_repricers(P["reprice"], P["lab"])
    return [lambda: (fn(X), nm), lambda: pv.reprice_taylor(X, delta=np.arange(P["n"]) - 1.0, gamma=P["budgets"]), lambda: pv.make_repricing_fn(lambda d: np.exp(d).sum(axis=-1), P["budgets"])(X)][k]()


@call("validation", lambda c, P: dict(k=c.int(0, 2)))
def _(P, k):
    from pyvallocation.utils import validation as va, constraints as co
    return [lambda: va.ensure_psd_matrix(P["bad_cov"]), lambda: va.is_psd(P["bad_cov"]), lambda: co.build_G_h_A_b(P["n"], **{k2: v for k2, v in P["spec"].items()})][k]()


@call("returns table", lambda c, P: dict(m=c.choice(["log", "simple"])))
def _(P, m):
    from pyvallocation.utils import data_helpers as dh
    return dh.pandas_to_numpy_returns(pd.DataFrame(P["prices"]) if not isinstance(P["prices"], pd.DataFrame) else P["prices"], return_calculation_method=m)


@call("invalid calls", lambda c, P: dict(k=c.int(0, 5)))
def _(P, k):
    pv = lib()
    return [lambda: P["wr"].min_variance_at_return(9.0), lambda: P["swr"].min_cvar_at_return(5.0), lambda: P["wr"].solve_robust_gamma_portfolio(1.0, 1e-12),
            lambda: pv.entropy_pooling(np.asarray(P["p"]), P["A"], P["b"] * 1e3), lambda: pv.discretize_weights(-P["w_series"], P["last_prices"], 100.0),
            lambda: P["wr"].variance_frontier(3, constraints=dict(bounds=(0.0, 0.01)))][k]()


@call("plots", lambda c, P: dict(k=c.int(0, 2)))
def _(P, k):
    import matplotlib.pyplot as plt
    pv = lib()
    try:
        ax = [lambda: pv.plot_frontiers({"a": P["frontier"], "b": P["frontier2"]}, line_kwargs={"lw": 1.0}, highlight=["min_risk"]),
              lambda: pv.plot_weights(P["w_series"]), lambda: pv.plot_frontiers_grid([P["frontier"], P["frontier2"]])][k]()
        ax = np.atleast_1d(np.asarray(ax, dtype=object)).ravel()[0]
        return [np.asarray(l.get_xydata(), float) for l in ax.get_lines()] if hasattr(ax, "get_lines") else None
    finally:
        plt.close("all")


HEAVY = {"plots": 0.15, "simulated cvar": 0.04}


# ------------------------------------------------------------------ execution
def run(name, P, params):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", CALLS[name][0](P, **params)
        except Exception as exc:                                     # noqa: BLE001 - compared, not judged
            return "error", (type(exc).__name__, str(exc)[:120])


def pick(case, P):
    name = case.choice(sorted(CALLS))
    if name in HEAVY and not case.chance(HEAVY[name]):
        name = "var target"
    return name, CALLS[name][1](case, P)


_IMPORTED = []


def settle():
    """Import-time side effects happen before the first snapshot; every case starts from the solver options of the import."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot                                          # noqa: F401
    lib()
    import cvxopt.solvers as cs
    if not _IMPORTED:
        _IMPORTED.append(copy.deepcopy(dict(cs.options)))
    cs.options.clear()
    cs.options.update(copy.deepcopy(_IMPORTED[0]))


@facet("C36", quick=500, rule="3..7 calls drawn from every public family over shared inputs (failing calls included): no input object, wrapper, frontier, solver option, random state or other global setting changes, and every call gives what it gives alone on fresh inputs; non-trivial = three or more successful calls")
def histories_do_not_matter(case):
    settle()
    start = world_state()
    P = pool(case)
    d = differs(start, world_state(), 0)
    case.check(d is None, f"building wrappers and frontiers changed a global setting {d}")
    if case.chance(0.3):
        import cvxopt.solvers as cs
        saved = dict(cs.options)
        cs.options["maxiters"] = case.choice([90, 120])              # the user's own global setting
        cs.options["custom"] = 1
    else:
        saved = None
    try:
        k = case.int(3, 7)
        if case.chance(0.35):                                        # one call with several parameters: nothing is remembered across them
            nm = pick(case, P)[0]
            calls = [(nm, CALLS[nm][1](case, P)) for _ in range(k)]
        else:
            calls = [pick(case, P) for _ in range(k)]
        if case.bool():
            calls.append(calls[case.int(0, k - 1)])
        case.note(calls=[(n, p) for n, p in calls], n=P["n"], labels=P["lab"], R=P["R"], mu=P["mu"], cov=P["cov"], spec=P["spec"])
        w0 = world_state()
        alone = [run(nm, copy.deepcopy(P), pr) for nm, pr in calls]
        alone = [(s, canon(v)) for s, v in alone]
        d = differs(w0, world_state(), 0)
        case.check(d is None, f"one of the calls changed a global setting {d}")
        before = canon(P)
        results = []
        for (nm, pr), (s, ref) in zip(calls, alone):
            got_s, got = run(nm, P, pr)
            results.append(got)
            d = differs(w0, world_state(), 0)
            case.check(d is None, f"`{nm}` changed a global setting {d}", params=pr)
            d = differs(before, canon(P), 0)
            case.check(d is None, f"`{nm}` modified what it was given: {d}", params=pr)
            case.check(got_s == s, f"`{nm}` alone: {s} {str(ref)[:150]}, in the history: {got_s} {str(got)[:150]}", params=pr)
            d = differs(ref, canon(got), 1e-7)
            case.check(d is None, f"`{nm}` gives another result in the history: {d}", params=pr)
        # earlier results are not rewritten by later calls
        for (nm, pr), (s, ref), got in zip(calls, alone, results):
            d = differs(ref, canon(got), 1e-7)
            case.check(d is None, f"the earlier result of `{nm}` changed afterwards: {d}", params=pr)
        for nm, _ in calls:
            case.event(nm)
        case.nontrivial(sum(s == "ok" for s, _ in alone) >= 3)
    finally:
        if saved is not None:
            cs.options.clear()
            cs.options.update(saved)


@facet("C36", quick=400, rule="one call twice on the same objects and once more on deep copies: equal results to the last bit or 1e-9, exactly equal inputs; every call of the library drawn; non-trivial = the call succeeds")
def repeats_agree(case):
    settle()
    P = pool(case)
    nm, pr = pick(case, P)
    case.note(call=nm, params=pr, labels=P["lab"], R=P["R"], mu=P["mu"], cov=P["cov"], spec=P["spec"])
    before, w0 = canon(P), world_state()
    s1, a = run(nm, P, pr)
    a = canon(a)
    s2, b = run(nm, P, pr)
    b = canon(b)
    s3, c = run(nm, copy.deepcopy(P), pr)
    d = differs(w0, world_state(), 0)
    case.check(d is None, f"`{nm}` changed a global setting {d}")
    d = differs(before, canon(P), 0)
    case.check(d is None, f"`{nm}` modified what it was given: {d}")
    case.check(s1 == s2 == s3, f"`{nm}`: {s1}, {s2}, {s3}")
    d = differs(a, b, 1e-9) or differs(a, canon(c), 1e-7)
    case.check(d is None, f"`{nm}` repeated gives another result: {d}")
    case.event(f"{nm}: {s1}")
    case.nontrivial(s1 == "ok")


# ------------------------------------------------------------------ a process without history
class Zygote:
    """A process forked before this one made any library call; every request runs in its own fork of it."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                self._serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.owner, self.w, self.r = os.getpid(), b, c

    @staticmethod
    def _read(fd, n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out

    @classmethod
    def recv(cls, fd):
        return pickle.loads(cls._read(fd, struct.unpack("<q", cls._read(fd, 8))[0]))

    @staticmethod
    def send(fd, obj):
        raw = pickle.dumps(obj)
        raw = struct.pack("<q", len(raw)) + raw
        while raw:
            raw = raw[os.write(fd, raw):]

    def _serve(self, r, w):
        while True:
            try:
                draws, idx = self.recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self.send(w, fresh_result(draws, idx))
                except BaseException as exc:                          # noqa: BLE001
                    self.send(w, ("harness", repr(exc)[:300]))
                finally:
                    os._exit(0)
            st = os.waitpid(pid, 0)[1]
            if os.WIFSIGNALED(st):
                self.send(w, ("error", ("killed", str(os.WTERMSIG(st)))))

    def ask(self, draws, idx):
        self.send(self.w, (draws, idx))
        return self.recv(self.r)


_ZYGOTE = None


def zygote():
    global _ZYGOTE
    if _ZYGOTE is None or _ZYGOTE.owner != os.getpid():
        _ZYGOTE = Zygote()
    return _ZYGOTE


def plan(case):
    """Pool and steps; the draws alone determine them."""
    P = pool(case)
    k = case.int(2, 5)
    steps = []
    for _ in range(k):
        steps.append(pick(case, P) if not case.chance(0.15) else ("edit", dict(what=case.choice(["R", "mu", "W", "cov", "p_raw", "prices"]), by=case.choice([0.5, 1.25]))))
    if case.bool():
        steps.append(steps[case.int(0, k - 1)])
    return P, steps


def edit(P, what, by):
    """The user changes one of the shared objects in place."""
    x = P[what]
    if isinstance(x, np.ndarray):
        x *= by
    elif isinstance(x, pd.Series):
        x.iloc[:] = x.to_numpy() * by
    else:
        x.iloc[:, :] = x.to_numpy() * by


def fresh_result(draws, idx):
    from .core import Case
    settle()
    P, steps = plan(Case(replay=[tuple(d) for d in draws]))
    for nm, pr in steps[:idx]:
        if nm == "edit":
            edit(P, **pr)
    st, v = run(steps[idx][0], P, steps[idx][1])
    return st, canon(v)


@facet("C36", quick=90, thorough=2500, rule="2..6 calls (and in-place edits by the user in between) after everything this process did before, each compared with the same call in a process that never called the library; non-trivial = two or more successful calls")
def fresh_process_agrees(case):
    settle()
    z = zygote()
    P, steps = plan(case)
    draws = list(case.draws)
    case.note(steps=steps, n=P["n"], labels=P["lab"], R=P["R"], mu=P["mu"], cov=P["cov"], spec=P["spec"])
    good = 0
    for i, (nm, pr) in enumerate(steps):
        if nm == "edit":
            edit(P, **pr)
            case.event("edit")
            continue
        st, got = run(nm, P, pr)
        fs, ref = z.ask(draws, i)
        if fs == "harness":
            raise RuntimeError(ref)
        case.check(st == fs, f"`{nm}` after other calls: {st} {str(got)[:150]}; in a fresh process: {fs} {str(ref)[:150]}", params=pr)
        d = differs(ref, canon(got), 1e-7)
        case.check(d is None, f"`{nm}` depends on what was called before: {d}", params=pr)
        good += st == "ok"
    case.nontrivial(good >= 2)
