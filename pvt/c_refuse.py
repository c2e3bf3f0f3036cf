"""C39: malformed data and out-of-domain parameters are refused (or stay visibly non-finite), never turned into plain numbers."""
import warnings
import numpy as np
import pandas as pd
from .core import facet
from .gen import probs, simplex_point
from .c_mv import lib
from .c_perm import World, OPS, _data, _run

NAN = float("nan")
INF = float("inf")


# ------------------------------------------------------------------ corrupted data
class Corrupt(World):
    """The `at`-th input handed out is damaged in the way `how`."""
    at = how = hit = None
    cnt = 0

    def _bad(self, obj, kind):
        self.cnt += 1
        if self.cnt != self.at:
            return obj
        A, h = np.array(obj, float, copy=True), self.how
        if h in ("nan", "inf", "-inf"):
            if self.whole and A.ndim == 2:
                A[:, -1] = float(h)                        # every draw of the resampling meets it
            else:
                A[tuple(self.cell % s for s in A.shape)] = float(h)
        elif h in ("short", "long"):
            if kind in ("scen", "frame", "rows"):
                return obj
            k = A.shape[0] - 1 if h == "short" else list(range(A.shape[0])) + [0]
            A = (A[:k] if h == "short" else A[k]) if A.ndim == 1 else (A[:k, :k] if h == "short" else A[np.ix_(k, k)])
        elif h == "rect":
            if kind != "mat":
                return obj
            A = A[:, :-1]
        elif h in ("negative", "zero"):
            if kind != "p":
                return obj
            A[self.cell % len(A)] = -(0.5 if self.cell % 2 else 1e-3) * A.max()
            A = A * 0 if h == "zero" else A
        self.hit = kind
        ext = lambda ix, n: list(ix)[:n] + ["extra"] * (n - len(ix))
        if isinstance(obj, pd.Series):
            return pd.Series(A, index=ext(obj.index, len(A)))
        if isinstance(obj, pd.DataFrame):
            return pd.DataFrame(A, index=ext(obj.index, A.shape[0]), columns=ext(obj.columns, A.shape[1]))
        return A

    def vec(self, v):
        return self._bad(super().vec(v), "vec")

    def ser(self, v):
        return self._bad(super().ser(v), "vec")

    def mat(self, v):
        return self._bad(super().mat(v), "mat")

    def scen(self, R, ordered=False):
        return self._bad(super().scen(R, ordered), "scen")

    def frame(self, R, ordered=True):
        return self._bad(super().frame(R, ordered), "frame")

    def p(self, v=None):
        return self._bad(super().p(v), "p")

    def rows(self, X, cols=None):
        return self._bad(super().rows(X, cols), "rows")


RESAMPLED = ("simulation", "wrapper from invariants", "invariant stress", "path reports")   # -inf log-return is a total loss


def _outside(name, hit, how, at, labelled):
    """Combinations the interface defines a finite answer for."""
    if how in ("short", "long") and name in ("allocation of shares", "frontier to shares"):
        return True                                        # any subset of the priced assets may be held
    if how in ("short", "long") and hit == "vec" and labelled and name in ("performance report", "path reports", "stress tables"):
        return True                                        # labelled weights are matched by name
    if name == "robust frontier" and hit == "mat" and at > 2:
        return True                                        # the volatility overlay is best effort
    return name in RESAMPLED and how in ("inf", "-inf")


@facet("C39", quick=2500, rule="one drawn operation of C35's registry with one of its inputs damaged (NaN, infinity, wrong length, non-square, negative or zero probabilities): it raises, or some output is visibly non-finite; non-trivial = the undamaged call succeeds and the damage reached an input")
def corrupted_data(case):
    d = _data(case)
    name = case.choice(sorted(OPS))
    lab = case.bool()
    how = case.choice(["nan", "nan", "inf", "-inf", "short", "long", "rect", "negative", "zero"])
    base = Corrupt(d, range(d["n"]), range(d["T"]), lab)
    r0 = _run(name, base)
    if r0[0] != "ok" or not base.cnt:
        return
    W = Corrupt(d, range(d["n"]), range(d["T"]), lab)
    W.at, W.how, W.cell, W.whole = case.int(1, base.cnt), how, case.int(0, 40), name in RESAMPLED
    case.note(op=name, labelled=lab, input=W.at, how=how, cell=W.cell, n=d["n"], T=d["T"], lab=d["lab"])
    r = _run(name, W)
    if W.hit is None or _outside(name, W.hit, how, W.at, lab):
        return
    case.event(f"{how} in {W.hit}")
    case.nontrivial(True)
    if r[0] != "ok":
        case.event("refused")
        return
    finite = True
    for k, (kind, val, _) in r[1].items():
        v = np.asarray(list(val.values()) if isinstance(val, dict) else val, float)
        finite = finite and bool(np.isfinite(v).all())
    case.check(not finite, f"{name}: {how} in input {W.at} ({W.hit}, {'labelled' if lab else 'array'}) gave entirely finite results", shown={k: v[1] for k, v in r[1].items()})


# ------------------------------------------------------------------ out-of-domain parameters
REFUSED = {}


def refuse(name):
    def deco(fn):
        REFUSED[name] = fn
        return fn
    return deco


def level(case):
    """Not a probability strictly between 0 and 1."""
    return case.choice([0.0, 1.0, -0.05, 1.05, 5.0, 95.0, NAN, INF, -case.float(0.001, 3), 1 + case.float(0.001, 90)])


def notpos(case, integer=False):
    return case.choice([0, -1, -7] if integer else [0.0, -1.0, -1e-6, NAN, -case.float(1e-6, 50)])


def neg(case):
    return case.choice([-1.0, -1e-3, NAN, -case.float(1e-3, 20)])


def bad(case):
    return case.choice([NAN, INF, -INF])


def broken(case, v, value=None):
    v = np.array(v, float, copy=True)
    v[case.int(0, len(v) - 1)] = bad(case) if value is None else value
    return v


def wrong_len(case, v):
    v = np.asarray(v, float)
    return np.r_[v, v[:1]] if case.bool() or len(v) < 3 else v[:-1]


class Ctx:
    def __init__(self, case):
        d = _data(case)
        self.d, self.n, self.T, self.R, self.p, self.mu, self.S, self.lab = d, d["n"], d["T"], d["R"], d["p"], d["mu"], d["S"], d["lab"]
        self.w = d["wl"]
        self.pv = lib()

    def scen(self):
        return self.pv.PortfolioWrapper.from_scenarios(self.R, probabilities=self.p)

    def mom(self, **kw):
        return self.pv.PortfolioWrapper.from_moments(self.mu, self.S, **kw)

    def frontier(self):
        pv = self.pv
        return pv.PortfolioFrontier(weights=self.d["X"][:, :3], returns=np.array([0.01, 0.02, 0.03]), risks=np.array([0.1, 0.12, 0.2]), risk_measure="Volatility", asset_names=self.lab)

    def prices(self):
        return pd.Series(self.d["prices"], index=self.lab)


def _pick(case, *thunks):
    return thunks[case.int(0, len(thunks) - 1)]


@refuse("cvar tail level")
def _(c, x):
    a = level(c)
    return _pick(c, lambda: x.scen().min_cvar_at_return(-1.0, alpha=a), lambda: x.scen().cvar_frontier(3, alpha=a), lambda: x.pv.MeanCVaR(x.R, x.p, *x.pv.Constraints().to_matrices(x.n), alpha=a)), a


@refuse("report confidence")
def _(c, x):
    from pyvallocation.utils import functions as fn
    a = level(c)
    return _pick(c, lambda: x.pv.performance_report(x.w, x.R, confidence=a), lambda: x.pv.stress_test(x.w, x.R, confidence=a), lambda: fn.portfolio_cvar(x.w, x.R, x.p, confidence=a), lambda: fn.portfolio_var(x.w, x.R, x.p, confidence=a),
                 lambda: x.pv.kernel_focus_stress(x.w, x.R, focus_series=x.R[:, 0], confidence=a), lambda: x.pv.exp_decay_stress(x.w, x.R, half_life=4, confidence=a), lambda: x.pv.entropy_pooling_stress(x.w, x.R, posterior_probabilities=x.p, confidence=a)), a


@refuse("improper probabilities")
def _(c, x):
    from pyvallocation.utils import functions as fn
    kind = c.choice(["negative", "zero", "nan", "inf", "length"])
    p = {"negative": lambda: broken(c, x.p, c.choice([-0.4, -1e-2, -1e-4])), "zero": lambda: np.zeros(x.T), "nan": lambda: broken(c, x.p, NAN), "inf": lambda: broken(c, x.p, INF), "length": lambda: wrong_len(c, x.p)}[kind]()
    pv, G = x.pv, np.ones((1, x.T))
    return _pick(c, lambda: pv.PortfolioWrapper.from_scenarios(x.R, probabilities=p), lambda: pv.AssetsDistribution(scenarios=x.R, probabilities=p), lambda: pv.performance_report(x.w, x.R, probabilities=p),
                 lambda: fn.portfolio_cvar(x.w, x.R, p), lambda: fn.portfolio_var(x.w, x.R, p), lambda: pv.estimate_sample_moments(x.R, p),
                 lambda: pv.project_scenarios(x.R, investment_horizon=2, n_simulations=5, p=p), lambda: pv.simulate_paths(x.R, horizon=2, n_paths=4, p=p), lambda: pv.stress_test(x.w, x.R, probabilities=p),
                 lambda: pv.stress_test(x.w, x.R, stressed_probabilities=p), lambda: pv.entropy_pooling_stress(x.w, x.R, posterior_probabilities=p), lambda: pv.entropy_pooling(p, G, np.ones(1)),
                 lambda: pv.FlexibleViewsProcessor(x.R, p, mean_views={"0": 0.01}), lambda: pv.horizon_report(x.w, x.R, horizons=(2,), n_simulations=5, p=p)), kind


@refuse("effective scenario counts")
def _(c, x):
    kind = c.choice(["negative", "zero", "nan", "inf"])
    p = {"negative": lambda: broken(c, x.p, c.choice([-0.4, -1e-2, -1e-4])), "zero": lambda: np.zeros(x.T), "nan": lambda: broken(c, x.p), "inf": lambda: broken(c, x.p, np.inf)}[kind]()
    return _pick(c, lambda: x.pv.compute_effective_number_scenarios(p), lambda: x.pv.compute_effective_number_scenarios_hhi(p), lambda: x.pv.probabilities.normalize_probability_vector(p), lambda: x.pv.probabilities.resolve_probabilities(wrong_len(c, x.p), x.T)), kind


@refuse("probability generators")
def _(c, x):
    k, h, b = notpos(c, True), notpos(c), notpos(c)
    return _pick(c, lambda: x.pv.generate_uniform_probabilities(k), lambda: x.pv.generate_exp_decay_probabilities(k, 5), lambda: x.pv.generate_exp_decay_probabilities(10, h), lambda: x.pv.generate_gaussian_kernel_probabilities(x.R[:, 0], h=b),
                 lambda: x.pv.exp_decay_stress(x.w, x.R, half_life=h)), (k, h, b)


@refuse("frontier sizes and grids")
def _(c, x):
    k, v, m = notpos(c, True), neg(c), c.float(0.01, 0.99)
    return _pick(c, lambda: x.mom().robust_lambda_frontier(num_portfolios=k), lambda: x.mom().robust_lambda_frontier(lambdas=[0.1, v]), lambda: x.mom().robust_lambda_frontier(lambdas=[]), lambda: x.mom().robust_lambda_frontier(num_portfolios=3, max_lambda=v),
                 lambda: x.mom().relaxed_risk_parity_frontier(num_portfolios=k), lambda: x.mom().relaxed_risk_parity_frontier(target_multipliers=[]), lambda: x.mom().relaxed_risk_parity_frontier(target_multipliers=[1.0, v]),
                 lambda: x.mom().relaxed_risk_parity_frontier(max_multiplier=m), lambda: x.mom().relaxed_risk_parity_frontier(lambda_reg=v)), (k, v, m)


@refuse("non-finite targets")
def _(c, x):
    t = bad(c)
    f = x.frontier()
    return _pick(c, lambda: x.mom().min_variance_at_return(t), lambda: x.scen().min_cvar_at_return(t, alpha=0.1), lambda: x.mom().min_relaxed_risk_parity_at_return(t) if hasattr(x.mom(), "min_relaxed_risk_parity_at_return") else x.mom().min_variance_at_return(t),
                 lambda: x.mom().relaxed_risk_parity_portfolio(lambda_reg=0.2, return_target=t), lambda: f.closest_risk(t), lambda: f.at_percentile(t), lambda: f.tangency(t)), t


@refuse("robust budgets")
def _(c, x):
    v = neg(c)
    return _pick(c, lambda: x.mom().solve_robust_gamma_portfolio(v, 1.0), lambda: x.mom().solve_robust_gamma_portfolio(0.5, v), lambda: x.pv.RobustOptimizer(x.mu, x.S, *x.pv.Constraints().to_matrices(x.n)).solve_lambda_variant(v)), v


@refuse("risk budgets")
def _(c, x):
    b = {0: lambda: broken(c, x.w, 0.0), 1: lambda: broken(c, x.w, -0.1), 2: lambda: broken(c, x.w), 3: lambda: wrong_len(c, x.w)}[c.int(0, 3)]()
    m, l = neg(c), neg(c)
    return _pick(c, lambda: x.mom().relaxed_risk_parity_portfolio(lambda_reg=0.0, risk_budgets=b), lambda: x.mom().relaxed_risk_parity_portfolio(lambda_reg=0.2, target_multiplier=m), lambda: x.mom().relaxed_risk_parity_portfolio(lambda_reg=l)), (b, m, l)


@refuse("moment inputs")
def _(c, x):
    pv, mu, S, R = x.pv, x.mu, x.S, x.R
    Sb = S.copy()
    Sb[0, 0] = bad(c)
    Rb = R.copy()
    Rb[c.int(0, x.T - 1), c.int(0, x.n - 1)] = bad(c)
    return _pick(c, lambda: pv.PortfolioWrapper.from_moments(broken(c, mu), S), lambda: pv.PortfolioWrapper.from_moments(mu, Sb), lambda: pv.PortfolioWrapper.from_moments(wrong_len(c, mu), S), lambda: pv.PortfolioWrapper.from_moments(mu, S[:, :-1]),
                 lambda: pv.PortfolioWrapper.from_scenarios(Rb), lambda: pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu)).variance_frontier(3), lambda: pv.PortfolioWrapper(pv.AssetsDistribution(cov=S)).min_variance_at_return(-1.0), lambda: pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu)).robust_lambda_frontier(num_portfolios=3), lambda: pv.AssetsDistribution(), lambda: pv.AssetsDistribution(mu=wrong_len(c, mu), scenarios=R, cov=S),
                 lambda: pv.PortfolioWrapper.from_scenarios(R[:, 0])), None


@refuse("prices")
def _(c, x):
    P = x.d["P"].copy()
    P[c.int(0, x.T), c.int(0, x.n - 1)] = c.choice([NAN, INF, -INF, 0.0, -1.0])
    if c.bool():
        P = pd.DataFrame(P, columns=x.lab)
    return _pick(c, lambda: x.pv.PortfolioWrapper.from_prices(P), lambda: x.pv.PortfolioWrapper.from_prices(x.d["P"][:1]), lambda: x.pv.PortfolioWrapper.from_prices(x.d["P"], return_type="arith")), None


@refuse("transaction costs")
def _(c, x):
    pv, z = x.pv, np.abs(x.d["prop"])
    b = c.choice([0, 1, 2])
    v = [lambda: broken(c, z, -0.01), lambda: broken(c, z), lambda: wrong_len(c, z)][b]()
    w0 = [lambda: broken(c, x.w), lambda: broken(c, x.w), lambda: wrong_len(c, x.w)][b]()
    return _pick(c, lambda: x.mom(costs=pv.TransactionCosts(initial_weights=x.w, market_impact_costs=v)).min_variance_at_return(-1.0), lambda: x.mom(costs=pv.TransactionCosts(initial_weights=w0, market_impact_costs=z)).min_variance_at_return(-1.0),
                 lambda: pv.PortfolioWrapper.from_scenarios(x.R, costs=pv.TransactionCosts(initial_weights=x.w, proportional_costs=v)).min_cvar_at_return(-1.0, alpha=0.2),
                 lambda: pv.PortfolioWrapper.from_scenarios(x.R, costs=pv.TransactionCosts(initial_weights=w0, proportional_costs=z)).min_cvar_at_return(-1.0, alpha=0.2)), (v, w0)


@refuse("constraint specifications")
def _(c, x):
    n, C = x.n, x.pv.Constraints
    i = c.choice([n, n + 3, -1 - n, -1])
    lo = c.float(-1, 1)
    hi = lo - c.float(0.01, 1)
    row = np.ones(n)
    k = c.choice([
        dict(bounds=(lo, hi)), dict(bounds={0: (lo, hi)}), dict(bounds={i: (0.0, 0.5)}), dict(bounds=[(0.0, 1.0)] * (n + 1)), dict(bounds=[(0.0, 1.0)] * (n - 1) if n > 2 else [(0.0, 1.0)] * 9),
        dict(bounds=[(lo, hi)] + [(0.0, 1.0)] * (n - 1)), dict(bounds={0: (0.0, NAN)}), dict(bounds=(NAN, 1.0)), dict(relative_bounds=[(0, i, 1.0)]), dict(relative_bounds=[(0, 0, 1.0)]), dict(relative_bounds=[(0, 1, NAN)]),
        dict(group_constraints={"g": ([0, i], 0.0, 0.5)}), dict(group_constraints={"g": ([0], lo, hi)}), dict(additional_G_h=[(row[:-1], 0.5)]), dict(additional_G_h=[(broken(c, row), 0.5)]), dict(additional_G_h=[(row, NAN)]),
        dict(additional_A_b=[(np.r_[row, 1.0], 0.5)]), dict(additional_A_b=[(broken(c, row), 0.5)]), dict(additional_A_b=[(row, bad(c))]), dict(total_weight=bad(c)), dict(bounds=(0.0, 1.0, 2.0)), dict(bounds={0: (0.0, "a")}),
    ])
    return _pick(c, lambda: C(**k).to_matrices(n), lambda: x.mom(constraints=k).min_variance_at_return(-1.0)), k


@refuse("frontier containers")
def _(c, x):
    pv, W = x.pv, x.d["X"][:, :3]
    r, s = np.array([0.01, 0.02, 0.03]), np.array([0.1, 0.12, 0.2])
    base = dict(weights=W, returns=r, risks=s, risk_measure="Volatility", asset_names=x.lab)
    k = c.choice([dict(returns=wrong_len(c, r)), dict(risks=wrong_len(c, s)), dict(asset_names=list(x.lab) + ["extra"]), dict(alternate_risks={"CVaR": wrong_len(c, s)})])
    return (lambda: pv.PortfolioFrontier(**{**base, **k})), k


@refuse("frontier selectors")
def _(c, x):
    f = x.frontier()
    i = c.choice([3, 4, 99, -4, -9])
    q = c.choice([-0.01, -5.0, 100.5, 250.0, NAN, INF])
    return _pick(c, lambda: f.column(i) if hasattr(f, "column") else f.weights[:, i], lambda: f.at_percentile(q), lambda: f.index_at_risk_percentile(q), lambda: f.at_return(c.float(0.031, 5)), lambda: f.at_risk(c.float(-1, 0.099)), lambda: f.closest_risk(0.1, risk_label="absent"),
                 lambda: f.min_risk(risk_label="absent"), lambda: f.as_discrete_allocation(i, x.prices(), 5000.0), lambda: f.tangency(bad(c))), (i, q)


@refuse("share allocations")
def _(c, x):
    d, pv = x.d, x.pv
    w, pr = pd.Series(x.w, index=x.lab), x.prices()
    z = c.choice([0.0, -1.0, NAN])
    lots = {l: 1 for l in x.lab}
    lots[x.lab[0]] = c.choice([0, -1, 1.5, NAN])
    k = dict(weights=w, latest_prices=pr, total_value=d["cash"])
    k.update(c.choice([dict(latest_prices=pr.iloc[1:]), dict(latest_prices=pd.Series(broken(c, pr, c.choice([0.0, -2.0, NAN])), index=x.lab)), dict(total_value=z), dict(weights=pd.Series(broken(c, w), index=x.lab)), dict(weights=w * 0),
                       dict(lot_sizes=lots), dict(weights=pd.Series(dtype=float)), dict(latest_prices=list(pr)), dict(weights=x.w), dict(method="guess")]))
    k.setdefault("method", c.choice(["greedy", "mip"]))
    return (lambda: pv.discretize_weights(**k)), {a: b for a, b in k.items()}


@refuse("projection")
def _(c, x):
    pv = x.pv
    k = notpos(c, True)
    a = c.choice([0.0, -1.0, -c.float(0.01, 9)])
    return _pick(c, lambda: pv.project_scenarios(x.R, investment_horizon=k, n_simulations=5), lambda: pv.project_scenarios(x.R, investment_horizon=2, n_simulations=k), lambda: pv.simulate_paths(x.R, horizon=k, n_paths=5), lambda: pv.simulate_paths(x.R, horizon=2, n_paths=k),
                 lambda: pv.project_mean_covariance(x.mu, x.S, a), lambda: pv.simple2log(broken(c, x.mu, -1.0 - c.float(0.01, 2)), x.S), lambda: pv.log2simple(wrong_len(c, x.mu), x.S), lambda: pv.simple2log(wrong_len(c, x.mu), x.S),
                 lambda: pv.log2simple(x.mu, x.S[:, :-1]), lambda: pv.project_scenarios(x.R[None], investment_horizon=2, n_simulations=5), lambda: pv.simulate_paths(x.R[None], horizon=2, n_paths=5), lambda: pv.drawdown_quantile(x.w, x.R, k)), (k, a)


@refuse("repricing")
def _(c, x):
    pv = x.pv
    X = pd.DataFrame(x.R, columns=x.lab)
    rp = c.choice([{"y": "missing"}, {"y": (["missing"], pv.reprice_exp)}, {"y": ([x.lab[0]], "not callable")}, {"y": 3.5}])
    return _pick(c, lambda: pv.stress_invariants(X, np.array([1.0]), rp, horizon=2, n_simulations=5), lambda: pv.PortfolioWrapper.from_invariants(X, horizon=2, n_simulations=5, reprice=rp), lambda: pv.PortfolioWrapper.from_invariants(x.R, horizon=2, n_simulations=5, reprice={"y": ([0], pv.reprice_exp)})), str(rp)


@refuse("stress inputs")
def _(c, x):
    pv = x.pv
    bw = wrong_len(c, x.w)
    return _pick(c, lambda: pv.stress_test(bw, x.R), lambda: pv.performance_report(bw, x.R), lambda: pv.scenario_pnl(bw, x.R), lambda: pv.stress_test(x.w, x.R, transform=lambda R: R[:-1]), lambda: pv.stress_test(x.w, x.R, transform=lambda R: R * bad(c)),
                 lambda: pv.kernel_focus_stress(x.w, x.R, focus_series=x.R[1:, 0]), lambda: pv.stress_test(x.w, x.R, transform=pv.linear_map(mean_shift=wrong_len(c, x.mu))), lambda: pv.stress_test(x.w, x.R[0]), lambda: pv.performance_report(x.d["X"][:, :2], x.R),
                 lambda: pv.stress_test(x.w[None, None], x.R), lambda: pv.horizon_report(bw, x.R, horizons=(2,), n_simulations=5), lambda: pv.drawdown_quantile(bw, x.R, 3, n_paths=5)), None


@refuse("labels that do not match")
def _(c, x):
    pv = x.pv
    other = ["zz%d" % i for i in range(x.n)]
    w = pd.Series(x.w, index=other)
    R, mu, S = pd.DataFrame(x.R, columns=x.lab), pd.Series(x.mu, index=other), pd.DataFrame(x.S, index=x.lab, columns=x.lab)
    return _pick(c, lambda: pv.performance_report(w, R), lambda: pv.scenario_pnl(w, R), lambda: pv.PortfolioWrapper.from_moments(mu, S), lambda: pv.AssetsDistribution(scenarios=R, mu=mu, cov=S),
                 lambda: pv.FlexibleViewsProcessor(R, x.p, mean_views={"zz9": 0.01}), lambda: pv.BlackLittermanProcessor(prior_cov=S, prior_mean=mu, mean_views={x.lab[0]: 0.01}),
                 lambda: pv.BlackLittermanProcessor(prior_cov=S, prior_mean=pd.Series(x.mu, index=x.lab), mean_views={"zz9": 0.01}), lambda: pv.NIWPosterior(mu, S, 10, 20), lambda: pv.shrink_mean_james_stein(mu, S, 50)), None


@refuse("estimator parameters")
def _(c, x):
    pv, R, S, mu = x.pv, x.R, x.S, x.mu
    v = c.choice([-0.01, 1.01, -3.0, 7.0])
    k = notpos(c, True)
    return _pick(c, lambda: pv.robust_covariance_tyler(R, shrinkage=v), lambda: pv.factor_covariance_poet(R, k=k), lambda: pv.covariance_ewma(R, span=c.choice([0.0, 0.5, -3.0])), lambda: pv.robust_mean_median_of_means(R, n_blocks=k), lambda: pv.sparse_precision_glasso(R, alpha=notpos(c)),
                 lambda: pv.estimate_moments(R, mean_estimator="absent"), lambda: pv.estimate_moments(R, cov_estimator="absent"), lambda: pv.shrink_mean_jorion(mu, S, k), lambda: pv.shrink_mean_james_stein(mu, S, k), lambda: pv.shrink_mean_james_stein(mu, S, 30, target=wrong_len(c, mu)),
                 lambda: pv.shrink_mean_jorion(wrong_len(c, mu), S, 30), lambda: pv.shrink_covariance_ledoit_wolf(R, S, target="absent"), lambda: pv.estimate_sample_moments(R, np.full(x.T, 1.0)), lambda: pv.robust_covariance_tyler(R[:, 0]),
                 lambda: pv.shrink_covariance_oas(R[:, 0]), lambda: pv.shrink_covariance_nls(R[:, 0]), lambda: pv.robust_mean_huber(R[:, 0]), lambda: pv.estimate_moments(R[:, 0])), (v, k)


@refuse("conjugate prior")
def _(c, x):
    pv, mu, S = x.pv, x.mu, x.S
    k, q = notpos(c), level(c)
    fit = lambda: pv.RobustBayesPosterior.from_niw(prior_mu=mu, prior_sigma=S, t0=12, nu0=25, sample_mu=mu, sample_sigma=S, n_obs=50)

    def upd(**kw):
        m = pv.NIWPosterior(mu, S, 10, 20)
        m.update(**{**dict(sample_mu=mu, sample_sigma=S, n_obs=30), **kw})
        return m
    return _pick(c, lambda: pv.NIWPosterior(mu, S, k, 20), lambda: pv.NIWPosterior(mu, S, 10, neg(c)), lambda: upd(n_obs=k), lambda: pv.NIWPosterior(wrong_len(c, mu), S, 10, 20), lambda: pv.NIWPosterior(mu, S[:, :-1], 10, 20), lambda: upd(sample_mu=wrong_len(c, mu)), lambda: upd(sample_sigma=S[:-1]),
                 lambda: upd().cred_radius_mu(q), lambda: upd().cred_radius_sigma_factor(q), lambda: pv.chi2_quantile(q, x.n) if hasattr(pv, "chi2_quantile") else upd().cred_radius_mu(q), lambda: pv.NIWPosterior(mu, S, 10, 20).get_posterior(), lambda: fit().cred_radius_mu(q)), (k, q)


@refuse("views")
def _(c, x):
    pv, a = x.pv, "0"
    s = float(x.R[:, 0].std())
    kw = c.choice([dict(mean_views={a: bad(c)}), dict(vol_views={a: c.choice([-s, NAN])}), dict(corr_views={("0", "1"): c.choice([1.2, -1.01, NAN])}), dict(mean_views={"99": 0.01}), dict(rank_mean=["0"]),
                   dict(cvar_views={a: bad(c)}), dict(var_views={a: -s * s}), dict(quantile_views={a: (0.01, level(c))}), dict(quantile_views={a: 0.3}), dict(mean_views=np.zeros(x.n + 1))])
    return (lambda: pv.FlexibleViewsProcessor(x.R, x.p, **kw).get_posterior_probabilities()), kw


@refuse("view intervals")
def _(c, x):
    lo = c.float(-1, 1)
    hi = lo - c.float(1e-4, 1)
    from pyvallocation import views as vw
    return _pick(c, lambda: vw.between(lo, hi), lambda: vw.between(bad(c), 1.0), lambda: vw.between(0.0, bad(c)), lambda: vw.at_least(bad(c)), lambda: vw.at_most(bad(c))), (lo, hi)


@refuse("entropy pooling")
def _(c, x):
    A, b = np.vstack([np.ones(x.T), x.R[:, 0]]), np.array([1.0, float(x.p @ x.R[:, 0])])
    Ab = A.copy()
    Ab[1, 0] = bad(c)
    return _pick(c, lambda: x.pv.entropy_pooling(x.p, A, wrong_len(c, b)), lambda: x.pv.entropy_pooling(x.p, Ab, b), lambda: x.pv.entropy_pooling(x.p, A, broken(c, b)), lambda: x.pv.entropy_pooling(x.p, A, b, x.R[:, :1].T, np.array([0.1, 0.2])),
                 lambda: x.pv.entropy_pooling(x.p, A[:, :-1], b), lambda: x.pv.entropy_pooling(x.p, A, b, x.R[:, :1].T, None), lambda: x.pv.entropy_pooling(x.p, A, b, x.R[:, :1].T, np.array([NAN])), lambda: x.pv.entropy_pooling(x.p, A, b, method="absent")), None


@refuse("black-litterman")
def _(c, x):
    pv, S, n = x.pv, x.S, x.n
    B = lambda **kw: pv.BlackLittermanProcessor(**{**dict(prior_cov=S, pi=x.mu, mean_views={0: 0.02}), **kw}).get_posterior()
    return _pick(c, lambda: B(pi=wrong_len(c, x.mu)), lambda: B(prior_cov=S[:, :-1]), lambda: B(pi=None, market_weights=x.w, risk_aversion=c.choice([0.0, -2.0])), lambda: B(pi=None), lambda: B(mean_views={n + 4: 0.01}), lambda: B(omega="idzorek"),
                 lambda: B(omega=np.eye(3)), lambda: B(omega="idzorek", view_confidences=[0.5, 0.4, 0.2]), lambda: B(mean_views=np.zeros(n + 1)), lambda: B(pi=None, market_weights=wrong_len(c, x.w))), None


@refuse("ensembles")
def _(c, x):
    from pyvallocation import ensembles as en
    pv, X = x.pv, x.d["X"]
    u = {0: lambda: broken(c, x.d["weights5"], -0.3), 1: lambda: np.zeros(5), 2: lambda: wrong_len(c, x.d["weights5"]), 3: lambda: broken(c, x.d["weights5"])}[c.int(0, 3)]()
    L = c.choice([1, 0, -2, 6, 50])
    f = x.frontier()
    g = pv.PortfolioFrontier(weights=X[::-1][:, :3], returns=f.returns, risks=f.risks, risk_measure="Volatility", asset_names=list(x.lab)[::-1])
    R = pd.DataFrame(x.R, columns=x.lab)
    sp = lambda **kw: pv.make_portfolio_spec("a", **{**dict(returns=R, optimiser="mean_variance", optimiser_kwargs=dict(num_portfolios=3), selector="min_risk"), **kw})
    run = lambda s, **kw: pv.assemble_portfolio_ensemble([s] if not isinstance(s, list) else s, **kw)
    return _pick(c, lambda: en.average_exposures(X, u), lambda: en.exposure_stacking(X, L), lambda: pv.average_frontiers([f, g]), lambda: pv.average_frontiers([]), lambda: pv.average_frontiers([f], selections=[0, 1]),
                 lambda: run(sp(optimiser="absent")), lambda: run(sp(selector="absent")), lambda: run(sp(), ensemble="absent"), lambda: run([sp(), sp()], ensemble="average"), lambda: run([]), lambda: run(sp(selector="risk_target")), lambda: run(sp(selector="risk_match")),
                 lambda: run(sp(selector="risk_percentile")), lambda: run(sp(selector="column")), lambda: run(sp(projection=dict(absent=1))), lambda: run(sp(), combine="absent"), lambda: run(sp(returns=None))), (u, L)


@facet("C39", quick=4000, rule="one drawn entry point called with one out-of-domain parameter or malformed specification on otherwise valid data: it raises; non-trivial = every case")
def bad_parameters(case):
    x = Ctx(case)
    name = case.choice(sorted(REFUSED))
    thunk, what = REFUSED[name](case, x)
    case.note(area=name, value=str(what)[:300], n=x.n, lab=x.lab)
    case.event(name)
    case.nontrivial(True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = thunk()
        except Exception:                                                   # noqa: BLE001 - any refusal will do
            return
    case.check(False, f"{name} {str(what)[:200]}: accepted (thunk line {thunk.__code__.co_firstlineno}, code {thunk.__code__.co_names}), gave {str(got)[:200]}")
