"""C42: leaving an argument out means what the documentation says it means."""
import warnings
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, scenarios, probs, names, constraint_spec, simplex_point
from .c_mv import lib
from .c_pure import canon, differs


def stated(case, what, call, defaults, others=None, tol=1e-8):
    """`call(**any part of the documented defaults)` is `call()`; other values show the setting matters."""
    others = others or {}
    keys = list(defaults)
    part = {k: defaults[k] for k in keys if case.chance(0.6)} or {k: defaults[k] for k in [case.choice(keys)]}
    base = {k: v for k, v in others.items() if k not in part and case.chance(0.3)}        # context: other settings off their defaults
    case.note(what=what, base={k: str(v)[:80] for k, v in base.items()}, stated={k: str(v)[:80] for k, v in part.items()})
    case.event(what)

    def run(**kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return ("ok", canon(call(**{**base, **kw})))
            except (ValueError, RuntimeError, ArithmeticError) as exc:
                return ("error", type(exc).__name__)

    def gap(x, y):
        return f"{x} / {y}"[:200] if x[0] != y[0] or x[0] == "error" and x != y else differs(x[1], y[1], tol)
    a, b = run(), run(**part)
    d = gap(a, b)
    case.check(d is None, f"{what}: leaving out {sorted(part)} differs from giving the documented default: {d}")
    effect = False
    live = [k for k in part if k in others]
    if live:
        k = case.choice(live)
        effect = gap(a, run(**{k: others[k]})) is not None
        if effect:
            case.event(f"{what}: {k} matters")
    case.nontrivial(effect and a[0] == "ok")


def _weights(case, n):
    return simplex_point(case, n)


# ---------------------------------------------------------------- optimisers
@facet("C42", quick=450, rule="portfolio entry points and optimisers over random problems and constraints: any subset of the documented defaults stated explicitly gives the result of leaving it out; non-trivial = solved, and another value of a stated setting gives another result")
def optimisers(case):
    pv = lib()
    n = case.size(2, 5)
    T = case.size(10, 40)
    mu, S = moments(case, n)
    R = scenarios(case, T, n)[0]
    spec = {} if case.bool() else constraint_spec(case, n)[0]
    W = lambda: pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu.copy(), cov=S.copy()), constraints=dict(spec))
    V = lambda: pv.PortfolioWrapper(pv.AssetsDistribution(scenarios=R.copy()), constraints=dict(spec))
    case.note(mu=mu, cov=S, spec=spec)
    kind = case.choice(["variance", "cvar", "robust", "min-cvar", "rrp", "rrp-diag", "rrp-frontier", "wrapper", "posterior", "prices-form", "invariants", "sharpe", "constraints", "ensemble-spec", "cvar-moments", "horizons"])
    f = lambda r: (r.weights, r.returns, r.risks, r.risk_measure)
    if kind == "variance":
        stated(case, "variance_frontier", lambda **k: f(W().variance_frontier(**k)), dict(num_portfolios=10), dict(num_portfolios=9))
    elif kind == "cvar":
        stated(case, "cvar_frontier", lambda **k: f(V().cvar_frontier(**k)), dict(num_portfolios=10, alpha=0.05, seed=None, enforce_convexity=True), dict(num_portfolios=7, alpha=0.3))
    elif kind == "robust":
        stated(case, "robust_lambda_frontier", lambda **k: f(W().robust_lambda_frontier(**k)), dict(num_portfolios=10, max_lambda=2.0, lambdas=None, return_cov=None), dict(num_portfolios=6, max_lambda=1.0))
    elif kind == "min-cvar":
        t = float(R.mean(0) @ _weights(case, n))
        stated(case, "min_cvar_at_return", lambda **k: V().min_cvar_at_return(t, **k), dict(alpha=0.05, seed=None), dict(alpha=0.4))
    elif kind in ("rrp", "rrp-diag"):
        name = "relaxed_risk_parity_portfolio" + ("_with_diagnostics" if kind == "rrp-diag" else "")
        stated(case, name, lambda **k: getattr(W(), name)(**k), dict(lambda_reg=0.2, target_multiplier=1.2, return_target=None, risk_budgets=None), dict(lambda_reg=0.9, target_multiplier=1.5))
    elif kind == "rrp-frontier":
        stated(case, "relaxed_risk_parity_frontier", lambda **k: f(W().relaxed_risk_parity_frontier(**k)), dict(num_portfolios=10, max_multiplier=1.6, lambda_reg=0.2, target_multipliers=None, include_risk_parity=True, risk_budgets=None), dict(num_portfolios=4, max_multiplier=1.3, include_risk_parity=False))
    elif kind == "wrapper":
        # a wrapper without any constraint is long-only and fully invested
        fr = case.choice([lambda w: f(w.variance_frontier(4)), lambda w: f(w.robust_lambda_frontier(4)), lambda w: w.relaxed_risk_parity_portfolio()])
        make = case.choice([lambda **k: pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu.copy(), cov=S.copy()), **k), lambda **k: pv.PortfolioWrapper.from_moments(mu.copy(), S.copy(), **k),
                            lambda **k: pv.PortfolioWrapper.from_scenarios(R.copy(), **k), lambda **k: pv.PortfolioWrapper.from_prices(100 * np.cumprod(1 + np.vstack([np.zeros(n), R]), axis=0), **k),
                            lambda **k: pv.PortfolioWrapper.from_invariants(R.copy(), n_simulations=60, seed=T, **k)])
        if case.bool():
            stated(case, "shortcuts", lambda **k: fr(make(**k)), dict(long_only=True, total_weight=1.0, bounds=None, costs=None), dict(total_weight=0.7))
        else:
            stated(case, "no constraints", lambda **k: fr(make(**k)), dict(constraints=case.choice([dict(long_only=True, total_weight=1.0), pv.Constraints(long_only=True, total_weight=1.0), pv.Constraints(), {}])), dict(constraints=dict(total_weight=0.7)))
    elif kind == "posterior":
        post = pv.RobustBayesPosterior(mu=mu, sigma=S, s_mu=S / 20)
        stated(case, "from_robust_posterior", lambda **k: f(pv.PortfolioWrapper.from_robust_posterior(post, **k).robust_lambda_frontier(4)), dict(long_only=True, total_weight=1.0, bounds=None, annualization_factor=1.0, constraints=None, costs=None), dict(annualization_factor=4.0, total_weight=0.8))
    elif kind == "prices-form":
        which = case.choice(["from_moments", "from_scenarios"])
        if which == "from_moments":
            stated(case, "from_moments", lambda **k: (lambda d: (d.mu, d.cov))(pv.PortfolioWrapper.from_moments(mu.copy(), S.copy(), **k).dist), dict(return_type="simple"), dict(return_type="log"))
        else:
            stated(case, "from_scenarios", lambda **k: (lambda d: (d.mu, d.cov, d.scenarios, d.probabilities))(pv.PortfolioWrapper.from_scenarios(R.copy(), **k).dist), dict(return_type="simple", probabilities=None), dict(return_type="log"))
    elif kind == "invariants":
        seed = case.int(0, 10 ** 6)
        stated(case, "from_invariants", lambda **k: pv.PortfolioWrapper.from_invariants(R.copy(), seed=seed, **k).dist.scenarios, dict(horizon=1, n_simulations=5000, p=case.choice([None, np.full(T, 1.0 / T)]), reprice=case.choice([None, lib_reprice()])), dict(horizon=3, n_simulations=4000))
    elif kind == "sharpe":
        from pyvallocation.optimization import MeanVariance
        A, b = np.ones((1, n)), np.ones(1)
        G, h = -np.eye(n), np.zeros(n)
        m = np.abs(mu) + 0.01
        if case.bool():
            from pyvallocation.optimization import RelaxedRiskParity
            stated(case, "RelaxedRiskParity.solve", lambda **k: RelaxedRiskParity(mu, S, G=G, h=h, A=A, b=b).solve(**k), dict(lambda_reg=0.0, return_target=None, min_target=None), dict(lambda_reg=0.4))
            return
        stated(case, "max_sharpe", lambda **k: MeanVariance(m, S, G=G, h=h, A=A, b=b).max_sharpe(**k), dict(risk_free_rate=0.0), dict(risk_free_rate=0.005))
    elif kind == "constraints":
        c = pv.Constraints
        keys = dict(long_only=True, total_weight=1.0, bounds=None, relative_bounds=None, group_constraints=None, additional_G_h=None, additional_A_b=None)
        from pyvallocation.utils.constraints import build_G_h_A_b
        if case.bool():
            stated(case, "Constraints", lambda **k: f(pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu, cov=S), constraints=c(**k)).variance_frontier(4)), keys, dict(total_weight=0.5))
        else:
            stated(case, "build_G_h_A_b", lambda **k: build_G_h_A_b(n, **k), dict(keys, return_none_if_empty=True), dict(total_weight=case.choice([None, 0.5]), long_only=False), tol=0)
    elif kind == "ensemble-spec":
        k2 = dict(optimiser="mean_variance", optimiser_kwargs=case.choice([None, {}]), selector="tangency", selector_kwargs=case.choice([None, {}]), frontier_selection=None, metadata=None)

        def one(**k):
            e = pv.assemble_portfolio_ensemble([W().make_ensemble_spec("x", **k)], ensemble=None)
            return e.selections, f(e.frontiers["x"])
        stated(case, "make_ensemble_spec", one, k2, dict(optimiser="robust", selector="min_risk"))
    elif kind == "cvar-moments":
        stated(case, "cvar_frontier(seed)", lambda **k: f(V().cvar_frontier(4, **k)), dict(alpha=0.05, enforce_convexity=True), dict(alpha=0.25))
    else:
        seed = case.int(0, 10 ** 6)
        fn = case.choice(["horizon_report", "drawdown_quantile"])
        w = _weights(case, n)
        if fn == "horizon_report":
            stated(case, fn, lambda **k: pv.horizon_report(w, R * 0.2, seed=seed, **k), dict(horizons=(4, 13, 26, 52), n_simulations=5000, p=None, confidence=0.95), dict(horizons=(2, 3), n_simulations=3000, confidence=0.8)) if case.chance(0.3) else \
                stated(case, fn, lambda **k: pv.horizon_report(w, R * 0.2, seed=seed, horizons=(1, 2), n_simulations=200, **k), dict(p=None, confidence=0.95, reprice=lib_reprice()), dict(confidence=0.8))
        else:
            h = case.int(2, 5)
            stated(case, fn, lambda **k: pv.drawdown_quantile(w, R * 0.2, h, seed=seed, **k), dict(confidence=0.95, n_paths=1000, p=None, reprice=lib_reprice()), dict(confidence=0.7, n_paths=500))


def lib_reprice():
    from pyvallocation.utils.projection import reprice_exp
    return reprice_exp


# ---------------------------------------------------------------- estimators, views, probabilities
@facet("C42", quick=900, rule="moment estimators, Bayesian posteriors, Black-Litterman and entropy-pooling views, scenario probabilities over random data; same relation; non-trivial likewise")
def estimators(case):
    pv = lib()
    from pyvallocation import moments as M, bayesian as B, probabilities as P
    from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, entropy_pooling
    n, T = case.size(2, 6), case.size(15, 60)
    R = scenarios(case, T, n)[0]
    mu, S = moments(case, n)
    p = probs(case, T)
    case.note(R=R, p=p)
    X = pd.DataFrame(R, columns=names(case, n)) if case.bool() else R.copy()
    kind = case.choice(["ewma", "estimate", "poet", "tyler", "huber", "mom", "lw", "nls", "oas", "js", "glasso", "bl", "bl2", "radius", "uncertainty", "chi2", "flex", "flex-moments", "pooling", "kernel", "normalise", "resolve", "psd", "spec"])
    if kind == "ewma":
        stated(case, "covariance_ewma", lambda **k: M.covariance_ewma(X, **k), dict(span=252, min_periods=1), dict(span=10))
    elif kind == "estimate":
        q = p if case.bool() else None
        stated(case, "estimate_moments", lambda **k: M.estimate_moments(X, q, **k), dict(mean_estimator="sample", cov_estimator="sample", mean_kwargs=case.choice([None, {}]), cov_kwargs=case.choice([None, {}])), dict(mean_estimator="james_stein", cov_estimator="ledoit_wolf"))
    elif kind == "poet":
        stated(case, "factor_covariance_poet", lambda **k: M.factor_covariance_poet(X, **k), dict(k="auto", thresh="auto", standardize=True, return_decomp=False), dict(thresh=0.9, k=min(2, n - 1)))
    elif kind == "tyler":
        stated(case, "robust_covariance_tyler", lambda **k: M.robust_covariance_tyler(X, **k), dict(shrinkage=0.0, target="identity", tol=1e-6, max_iter=200, ensure_psd=True), dict(shrinkage=0.3, max_iter=2))
    elif kind == "huber":
        stated(case, "robust_mean_huber", lambda **k: M.robust_mean_huber(X, **k), dict(tol=1e-6, max_iter=200, allow_vectorized=True), dict(max_iter=1))
    elif kind == "mom":
        seed = case.int(0, 10 ** 6)
        stated(case, "robust_mean_median_of_means", lambda **k: M.robust_mean_median_of_means(X, random_state=seed, **k), dict(n_blocks="auto"), dict(n_blocks=3))
    elif kind == "lw":
        hat = np.cov(R.T, bias=True)
        stated(case, "shrink_covariance_ledoit_wolf", lambda **k: M.shrink_covariance_ledoit_wolf(X, pd.DataFrame(hat, index=X.columns, columns=X.columns) if isinstance(X, pd.DataFrame) else hat, **k), dict(target="identity"), dict(target="constant_correlation"))
    elif kind == "nls":
        stated(case, "shrink_covariance_nls", lambda **k: M.shrink_covariance_nls(X, **k), dict(input_is_cov=False, dof_correction=0), dict(dof_correction=1))
    elif kind == "oas":
        stated(case, "shrink_covariance_oas", lambda **k: M.shrink_covariance_oas(X, **k), dict(assume_centered=True), dict(assume_centered=False))
    elif kind == "js":
        m = pd.Series(mu, index=X.columns) if isinstance(X, pd.DataFrame) else mu
        c = pd.DataFrame(S, index=X.columns, columns=X.columns) if isinstance(X, pd.DataFrame) else S
        stated(case, "shrink_mean_james_stein", lambda **k: M.shrink_mean_james_stein(m, c, T, **k), dict(target="grand_mean"), dict(target=np.zeros(n)))
    elif kind == "glasso":
        stated(case, "sparse_precision_glasso", lambda **k: M.sparse_precision_glasso(X, **k), dict(assume_centered=True, return_precision=False, alpha="auto"), dict(assume_centered=False, alpha=0.05))
    elif kind in ("bl", "bl2"):
        v = {0: float(mu[0] + 0.01)}
        conf = {0: 0.4} if case.bool() else None
        base = dict(prior_cov=S.copy(), mean_views=v, view_confidences=conf) if conf else dict(prior_cov=S.copy(), mean_views=v, omega=np.array([0.01]))
        base[case.choice(["prior_mean", "market_weights"])] = case.choice([mu.copy(), np.full(n, 1.0 / n)])
        if "prior_mean" in base:
            d, o = dict(tau=0.05), dict(tau=0.2)
        else:
            d, o = dict(tau=0.05, risk_aversion=1.0), dict(tau=0.2, risk_aversion=2.5)
        if conf:
            d, o = dict(d, omega="idzorek"), dict(o)
        if kind == "bl":
            if conf:
                d["idzorek_use_tau"] = True
                o["idzorek_use_tau"] = False
                base["omega"] = "idzorek"
                d.pop("omega")
            stated(case, "BlackLittermanProcessor", lambda **k: BlackLittermanProcessor(**base, **k).get_posterior(), dict(d, verbose=False), o)
        else:
            stated(case, "posterior_moments_black_litterman", lambda **k: M.posterior_moments_black_litterman(**base, **k), d, o)
    elif kind in ("radius", "uncertainty"):
        mk = lambda: B.RobustBayesPosterior.from_niw(prior_mu=mu, prior_sigma=S, t0=20, nu0=n + 5, sample_mu=R.mean(0), sample_sigma=np.cov(R.T), n_obs=T)
        if kind == "radius":
            if case.bool():
                stated(case, "cred_radius_mu", lambda **k: mk().cred_radius_mu(**k), dict(p_mu=0.75), dict(p_mu=0.5))
            else:
                stated(case, "cred_radius_sigma_factor", lambda **k: mk().cred_radius_sigma_factor(**k), dict(p_sigma=0.75), dict(p_sigma=0.5))
        elif case.bool():
            stated(case, "mean_uncertainty_cov_log", lambda **k: mk().mean_uncertainty_cov_log(**k), dict(annualization_factor=1.0), dict(annualization_factor=12.0))
        else:
            stated(case, "mean_uncertainty_cov_simple", lambda **k: mk().mean_uncertainty_cov_simple(**k), dict(annualization_factor=1.0, exact=False), dict(annualization_factor=12.0, exact=True))
    elif kind == "chi2":
        q, dof = float(case.uniform(0.01, 0.99, 1)[0]), case.int(1, 30)
        stated(case, "chi2_quantile", lambda **k: B.chi2_quantile(q, dof, **k), dict(sqrt=False), dict(sqrt=True))
    elif kind == "flex":
        cols = list(X.columns) if isinstance(X, pd.DataFrame) else ["0"]
        a = cols[0]
        q = p / p.sum()
        v = {a: (">=", float(q @ R[:, 0]))}
        more = dict(vol_views={a: ("<=", 1.05 * float(np.sqrt(q @ (R[:, 0] - q @ R[:, 0]) ** 2)))})

        def go(**k):
            z = FlexibleViewsProcessor(prior_risk_drivers=X, prior_probabilities=q, mean_views=v, **more, **k)
            return z.get_posterior_probabilities(), z.get_posterior()
        stated(case, "FlexibleViewsProcessor", go, dict(sequential=False, cvar_views=None, quantile_views=None, rank_mean=None, skew_views=None, corr_views=None), dict(sequential=True))
    elif kind == "flex-moments":
        seed = case.int(0, 10 ** 6)
        if case.chance(0.35):
            stated(case, "FlexibleViewsProcessor(moments)", lambda **k: FlexibleViewsProcessor(prior_mean=mu, prior_cov=S, random_state=seed, mean_views={"0": (">=", float(mu[0]))}, **k).get_posterior(), dict(num_scenarios=10000, distribution_fn=None, sequential=False), dict(num_scenarios=9000))
        else:
            stated(case, "sequential views", lambda **k: FlexibleViewsProcessor(prior_risk_drivers=R, mean_views={"0": float(R[:, 0].mean() + 0.3 * R[:, 0].std())}, vol_views={"0": 0.7 * float(R[:, 0].std())}, **k).get_posterior(), dict(sequential=False, prior_probabilities=None), dict(sequential=True))
    elif kind == "pooling":
        A, b = np.vstack([np.ones(T), R[:, 0]]), np.array([[1.0], [float(R[:, 0].mean() + 0.2 * R[:, 0].std())]])
        stated(case, "entropy_pooling", lambda **k: entropy_pooling(p.reshape(-1, 1) / p.sum(), A, b, **k), dict(G=None, h=None, method=case.choice([None, "TNC"])), dict(method="L-BFGS-B"))
    elif kind == "kernel":
        x = R[:, 0].copy()
        sd = float(np.std(x))
        d = dict(v=x.copy(), x_T=float(x[-1]))
        stated(case, "generate_gaussian_kernel_probabilities", lambda **k: P.generate_gaussian_kernel_probabilities(x, **k), d, dict(x_T=float(x[0]), v=x[::-1].copy()) if sd > 0 else {})
    elif kind == "normalise":
        z = 3 * p
        stated(case, "normalize_probability_vector", lambda **k: P.normalize_probability_vector(z, **k), dict(strictly_positive=False, name="probabilities"), dict(strictly_positive=True))
    elif kind == "resolve":
        z = case.choice([None, 3 * p])
        stated(case, "resolve_probabilities", lambda **k: P.resolve_probabilities(z, T, **k), dict(strictly_positive=False, name="probabilities"), dict(strictly_positive=True))
    elif kind == "psd":
        from pyvallocation.utils import validation as V
        C = S.copy()
        near = lambda t: t * float(case.choice([1e-3, 0.3, 0.8, 0.95, 1.05, 1.3, 3.0, 1e3]))
        d = near(1e-8)
        ev, Q = np.linalg.eigh(C)
        ev[0] = -d
        C = (Q * ev) @ Q.T
        C = (C + C.T) / 2
        w = np.full(n, 1.0 / n)
        w[0] += near(1e-6)
        neg = np.abs(w)
        neg[-1] = -near(1e-9)
        # each threshold holds on both sides of the documented value
        if case.bool():
            stated(case, "is_psd", lambda **k: bool(V.is_psd(C, **k)), dict(tolerance=1e-8), dict(tolerance=case.choice([1e-5, 1e-10])))
        elif case.bool():
            stated(case, "check_weights_sum_to_one", lambda **k: bool(V.check_weights_sum_to_one(w, **k)), dict(tolerance=1e-6), dict(tolerance=case.choice([1e-4, 1e-8])))
        elif case.bool():
            stated(case, "check_non_negativity", lambda **k: bool(V.check_non_negativity(neg, **k)), dict(tolerance=1e-9), dict(tolerance=case.choice([1e-6, 1e-11])))
        else:
            stated(case, "ensure_psd_matrix", lambda **k: V.ensure_psd_matrix(C, **k), dict(jitter=1e-8), dict(jitter=1e-3), tol=1e-14)
    else:
        q = p if case.bool() else None

        def one(**k):
            e = pv.assemble_portfolio_ensemble([pv.make_portfolio_spec("x", returns=pd.DataFrame(X), probabilities=q, **k)], ensemble=None)
            fr = e.frontiers["x"]
            return e.selections, fr.weights, fr.returns, fr.risks
        stated(case, "make_portfolio_spec", one, dict(use_scenarios=False, mean_estimator="sample", cov_estimator="sample", mean_kwargs=None, cov_kwargs=None, optimiser="mean_variance", optimiser_kwargs=None, selector="tangency", selector_kwargs=None, frontier_selection=None, preprocess=None, projection=None, distribution=None, distribution_factory=None),
               dict(cov_estimator="oas", mean_estimator="james_stein", optimiser="robust", selector="min_risk"))


# ---------------------------------------------------------------- reports, stresses, projection, allocation, ensembles
@facet("C42", quick=900, rule="risk measures, reports, stresses, projection, allocation, frontier selection and ensembles over random data; same relation; non-trivial likewise")
def reports(case):
    pv = lib()
    from pyvallocation import stress as X, ensembles as E
    from pyvallocation.utils import functions as F, projection as J
    from pyvallocation.utils.performance import performance_report
    n, T = case.size(2, 5), case.size(20, 60)
    R = scenarios(case, T, n)[0]
    p = probs(case, T)
    q = p / p.sum()
    w = _weights(case, n)
    case.note(R=R, p=p, w=w)
    uni = case.choice([None, np.full((T, 1), 1.0 / T)])
    c2, dm = dict(confidence=0.95, demean=False), dict(confidence=0.6, demean=True)
    seed = case.int(0, 10 ** 6)
    kind = case.choice(["cvar", "var", "report", "stress", "pooling", "decay", "kernel", "invariants", "linear", "project", "scenarios", "paths", "taylor", "discrete", "greedy", "mip", "shares", "returns", "frontier", "assemble", "stack", "average"])
    if kind in ("cvar", "var"):
        fn = getattr(F, "portfolio_" + kind)
        stated(case, "portfolio_" + kind, lambda **k: fn(w, R, **k), dict(c2, p=uni), dict(dm, p=q.reshape(-1, 1)))
    elif kind == "report":
        stated(case, "performance_report", lambda **k: performance_report(w, R, **k), dict(c2, probabilities=uni), dict(dm, probabilities=q))
    elif kind == "stress":
        k0 = dict(stressed_probabilities=q) if case.bool() else dict(transform=lambda z: 1.1 * z)
        stated(case, "stress_test", lambda **k: X.stress_test(w, R, **k0, **k), dict(c2, probabilities=uni), dict(dm, probabilities=q))
    elif kind == "pooling":
        stated(case, "entropy_pooling_stress", lambda **k: X.entropy_pooling_stress(w, R, posterior_probabilities=q, **k), dict(c2, probabilities=uni), dm)
    elif kind == "decay":
        stated(case, "exp_decay_stress", lambda **k: X.exp_decay_stress(w, R, **k), dict(c2, half_life=60, probabilities=uni), dict(dm, half_life=10))
    elif kind == "kernel":
        s = R[:, 0] + 0.1 * case.normal(T)
        stated(case, "kernel_focus_stress", lambda **k: X.kernel_focus_stress(w, R, focus_series=s, **k), dict(c2, probabilities=uni, bandwidth=None, target=case.choice([None, float(s[-1])])), dict(dm, target=float(s[0])))
    elif kind == "invariants":
        if case.chance(0.3):
            d, o = dict(horizon=1, n_simulations=5000), dict(horizon=2, n_simulations=3000)
            k0 = dict(seed=seed)
        else:
            d, o = dict(c2, horizon=1), dict(dm, horizon=2)
            k0 = dict(seed=seed, n_simulations=300)
        stated(case, "stress_invariants", lambda **k: X.stress_invariants(R * 0.2, w, lib_reprice(), **k0, **k), dict(d, stress_views=None), o)
    elif kind == "linear":
        stated(case, "linear_map", lambda **k: X.linear_map(mean_shift=0.01, **k)(R), dict(scale=case.choice([None, 1.0]), matrix=case.choice([None, np.eye(n)])), dict(scale=1.2))
    elif kind in ("project", "scenarios", "paths"):
        name = dict(project="project_risk_drivers", scenarios="project_scenarios", paths="simulate_paths")[kind]
        fn = getattr(J, name)
        a, b = ("horizon", "n_paths") if kind == "paths" else ("investment_horizon", "n_simulations")
        def go(**k):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(R, seed=seed, **k)
        stated(case, name, go, {a: 2, b: 1000, "p": uni if uni is None else uni.ravel(), "reprice": None}, {a: 3, b: 900})
    elif kind == "taylor":
        dl = case.unit(n)
        stated(case, "reprice_taylor", lambda **k: J.reprice_taylor(R, delta=dl, **k), dict(theta=case.choice([None, np.zeros(n)]), gamma=case.choice([None, np.zeros(n)]), tau=0.0), dict(gamma=np.ones(n), theta=0.3 * np.ones(n), tau=0.5))
    elif kind == "returns":
        from pyvallocation.utils.data_helpers import pandas_to_numpy_returns
        P = pd.DataFrame(100 * np.cumprod(1 + np.clip(R, -0.5, 1.0), axis=0), columns=names(case, n))
        if case.bool():
            P.iloc[case.int(1, T - 2), case.int(0, n - 1)] = np.nan
        stated(case, "pandas_to_numpy_returns", lambda **k: pandas_to_numpy_returns(P.copy(), **k), dict(price_columns=None, date_column=None, return_calculation_method="log", fill_na_method="ffill"), dict(return_calculation_method="simple", fill_na_method="bfill"), tol=1e-13)
    elif kind in ("discrete", "greedy", "mip", "shares"):
        from pyvallocation import discrete_allocation as D
        lab = names(case, n)
        prices = pd.Series(np.exp(case.uniform(0, 4, n)), index=lab)
        ws = pd.Series(w, index=lab)
        val = float(case.uniform(100, 5000, 1)[0])
        if kind == "shares":
            fr = pv.PortfolioFrontier(weights=np.column_stack([w, w]), returns=np.zeros(2), risks=np.ones(2), risk_measure="Volatility", asset_names=list(lab))
            stated(case, "as_discrete_allocation", lambda **k: alloc(fr.as_discrete_allocation(1, prices, val, **k)), dict(method="greedy", lot_sizes=None), dict(method="mip", lot_sizes=pd.Series(2, index=lab)))
        elif kind == "discrete":
            stated(case, "discretize_weights", lambda **k: alloc(D.discretize_weights(ws, prices, val, **k)), dict(method="greedy", lot_sizes=case.choice([None, pd.Series(1, index=lab)])), dict(lot_sizes=pd.Series(2, index=lab)))
        elif kind == "greedy":
            stated(case, "allocate_greedy", lambda **k: alloc(D.allocate_greedy(D.DiscreteAllocationInput(ws, prices, val), **k)), dict(max_iterations=None, fallback_mode="auto", fallback_kwargs=None), {})
            case.nontrivial(True)
        else:
            stated(case, "allocate_mip", lambda **k: alloc(D.allocate_mip(D.DiscreteAllocationInput(ws, prices, val), **k)), dict(cash_penalty=1.0, max_cash=None, solver_options=case.choice([None, {}])), dict(cash_penalty=0.0))
    elif kind == "frontier":
        fr = lib().PortfolioWrapper.from_scenarios(R).cvar_frontier(5)
        name = case.choice(["min_risk", "at_risk", "at_return", "closest_risk", "risk_percentiles", "index_at_risk_percentile", "at_percentile", "to_frame", "to_samples"])
        arg = {"at_risk": [float(np.median(fr.risks))], "closest_risk": [float(fr.risks[-1])], "at_return": [float(np.median(fr.returns))],
               "index_at_risk_percentile": [50.0], "at_percentile": [50.0]}.get(name, [])
        d = dict(columns=None, column_labels=None) if name == "to_frame" else dict(columns=None, as_frame=True) if name == "to_samples" else dict(risk_label=case.choice([None, fr.risk_measure]))
        bare = lambda r: tuple(bare(x) for x in r) if isinstance(r, tuple) else r.rename(None) if isinstance(r, pd.Series) else r
        stated(case, name, lambda **k: bare(getattr(fr, name)(*arg, **k)), d, {"columns": [0]} if name.startswith("to_") else {"risk_label": "Volatility"})
        case.nontrivial(True)
    else:
        lab = names(case, n)
        k = case.int(2, 5)
        W = pd.DataFrame(np.column_stack([_weights(case, n) for _ in range(k)]), index=lab, columns=[f"m{i}" for i in range(k)])
        if kind == "average":
            stated(case, "average_exposures", lambda **kw: E.average_exposures(W, **kw), dict(weights=case.choice([None, np.full(k, 1.0 / k)])), dict(weights=np.arange(1.0, k + 1)))
        elif kind == "stack":
            L = min(3, k)
            if case.bool():
                stated(case, "exposure_stacking", lambda **kw: E.exposure_stacking(W, L, **kw), dict(solver_options=case.choice([None, {}])), {})
                case.nontrivial(True)
            else:
                mk = lambda j: pv.PortfolioFrontier(weights=W.to_numpy()[:, j:j + 1].repeat(2, 1), returns=np.array([0.0, 1.0]), risks=np.array([0.1, 0.2]), risk_measure="Volatility", asset_names=list(lab))
                k3 = max(k, 3)
                frs = [mk(j % k) for j in range(k3)]
                stated(case, "stack_portfolios", lambda **kw: E.stack_portfolios(frs, **({"selections": [[0]] * k3} | kw)), dict(L=3, solver_options=None), dict(L=2))
        else:
            mk = lambda j: E.EnsembleSpec(f"m{j}", lambda: pv.PortfolioFrontier(weights=W.to_numpy()[:, [j, (j + 1) % k]], returns=np.array([0.0, 1.0]), risks=np.array([0.1, 0.2]), risk_measure="Volatility", asset_names=list(lab)), lambda fr: fr.max_return()[0])
            stated(case, "assemble_portfolio_ensemble", lambda **kw: (lambda e: (e.ensembles, e.selections))(pv.assemble_portfolio_ensemble([mk(j) for j in range(k)], **kw)),
                   dict(ensemble=case.choice(["stack", ("stack",)]), combine="selected", stack_folds=min(3, k), ensemble_weights=None, stack_kwargs=case.choice([None, {}])), dict(ensemble="average", combine="frontier", stack_folds=2))


def alloc(r):
    return {k: int(v) for k, v in dict(r.shares).items()}, float(r.leftover_cash)
