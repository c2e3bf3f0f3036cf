"""C40: results do not depend on the unit in which returns or money are quoted."""
import warnings
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, names, probs, simplex_point, Poly
from .c_mv import lib

# daily, hourly, basis points, sixteenths, percent, money: powers of two leave every mantissa alone, decimal units round it
UNITS = [2.0 ** -4, 2.0 ** -7, 2.0 ** -10, 2.0 ** -13, 2.0 ** 7, 2.0 ** 10, 0.01, 1e-3, 1e-4, 100.0, 1e4]
EXACT = dict(rtol=1e-9)
NUMERIC, CHOICE = {}, {}


def op(table, name):
    def deco(fn):
        table[name] = fn
        return fn
    return deco


class Market:
    """The drawn market with every return quoted in the unit u (covariances in its square)."""

    def __init__(self, d, u):
        self.d, self.u = d, float(u)
        self.n, self.T = d["n"], d["T"]

    def __getattr__(self, k):
        return self.d[k]

    def vec(self, v):
        v = np.asarray(v, float) * self.u
        return pd.Series(v, index=self.d["lab"]) if self.d["labelled"] else v

    def mat(self, S):
        S = np.asarray(S, float) * self.u ** 2
        return pd.DataFrame(S, index=self.d["lab"], columns=self.d["lab"]) if self.d["labelled"] else S

    def scen(self, R=None):
        R = np.asarray(self.d["R"] if R is None else R, float) * self.u
        return pd.DataFrame(R, columns=self.d["lab"]) if self.d["labelled"] else R

    def plain(self, v):
        return pd.Series(np.asarray(v, float), index=self.d["lab"]) if self.d["labelled"] else np.asarray(v, float)

    def key(self, i):
        return self.d["lab"][i] if self.d["labelled"] else i

    def skey(self, i):
        return self.d["lab"][i] if self.d["labelled"] else str(i)


# ------------------------------------------------------------------ estimators
@op(NUMERIC, "sample moments")
def _(M):
    m, S = lib().estimate_sample_moments(M.scen(), M.p)
    return {"mean": (m, 1, EXACT), "cov": (S, 2, EXACT)}


@op(NUMERIC, "covariance shrinkage")
def _(M):
    pv = lib()
    R = M.scen()
    return {"lw identity": (pv.shrink_covariance_ledoit_wolf(R, np.asarray(np.cov(np.asarray(R, float).T)).reshape(M.n, M.n), target="identity"), 2, EXACT),
            "lw correlation": (pv.shrink_covariance_ledoit_wolf(R, np.asarray(np.cov(np.asarray(R, float).T)).reshape(M.n, M.n), target="constant_correlation"), 2, dict(rtol=1e-8)),
            "oas": (pv.shrink_covariance_oas(R), 2, EXACT), "nls": (pv.shrink_covariance_nls(R), 2, dict(rtol=1e-6)),
            "ewma": (pv.covariance_ewma(R, span=9), 2, EXACT), "tyler": (pv.robust_covariance_tyler(R, shrinkage=0.1 * M.k3), 2, dict(rtol=1e-5))}


@op(NUMERIC, "sparse precision")
def _(M):
    S, K = lib().sparse_precision_glasso(M.scen(), alpha="auto" if M.k3 == 0 and M.n < 4 else 0.1 * M.u ** 2 * float(np.mean(M.R.var(0))), return_precision=True)
    return {"cov": (S, 2, dict(rtol=1e-4)), "precision": (K, -2, dict(rtol=1e-4))}


@op(NUMERIC, "factor model")
def _(M):
    S, B, F = lib().factor_covariance_poet(M.scen(), k=1, return_decomp=True)
    B, F = np.asarray(B, float), np.asarray(F, float)
    return {"cov": (S, 2, dict(rtol=1e-7)), "common part": (F @ B.T if F.shape[1] == B.shape[1] else F, 1 if F.shape[1] == B.shape[1] else 0, dict(rtol=1e-6))}


@op(NUMERIC, "robust means")
def _(M):
    pv = lib()
    R = M.scen()
    return {"huber": (pv.robust_mean_huber(R), 1, dict(rtol=1e-5)), "median of means": (pv.robust_mean_median_of_means(R, n_blocks=4, random_state=2), 1, EXACT),
            "james-stein": (pv.shrink_mean_james_stein(M.vec(M.mu), M.mat(M.S), M.T, target="grand_mean" if M.k3 else M.vec(M.mu2)), 1, dict(rtol=1e-7))}


@op(NUMERIC, "moment factory")
def _(M):
    names_ = ["sample", "ledoit_wolf", "oas", "nls", "tyler", "poet"]
    c = names_[M.pick % len(names_)]
    m, S = lib().estimate_moments(M.scen(), None, mean_estimator=["sample", "huber", "james_stein" if M.n > 2 else "sample"][M.k3], cov_estimator=c, cov_kwargs={"poet": dict(k=1)}.get(c, {}))
    return {"mean": (m, 1, dict(rtol=1e-5)), "cov": (S, 2, dict(rtol=1e-5))}


# ------------------------------------------------------------------ Bayesian models and views
@op(NUMERIC, "normal inverse Wishart")
def _(M):
    pv = lib()
    kw = dict(prior_mu=M.vec(M.mu), prior_sigma=M.mat(M.S), t0=9, nu0=M.n + 20, sample_mu=M.vec(M.mu2), sample_sigma=M.mat(M.S2), n_obs=40)
    m, S = pv.posterior_moments_niw(**kw)
    q = pv.RobustBayesPosterior.from_niw(**kw)
    return {"mean": (m, 1, EXACT), "cov": (S, 2, EXACT), "mu": (q.mu, 1, EXACT), "s_mu": (q.s_mu, 2, EXACT), "sigma": (q.sigma, 2, EXACT), "sigma1": (q.sigma1, 2, EXACT),
            "long mean uncertainty": (q.mean_uncertainty_cov_log(annualization_factor=12.0), 2, EXACT), "radius of the mean": (q.cred_radius_mu(0.7), 0, EXACT), "radius of the covariance": (q.cred_radius_sigma_factor(0.7), 0, EXACT)}


@op(NUMERIC, "Black-Litterman")
def _(M):
    """Equilibrium returns are risk aversion times covariance times weights, so the aversion is quoted per unit of return."""
    pv = lib()
    views = {M.key(0): 0.05 * M.u}
    if M.n > 1:
        views[(M.key(1), M.key(0))] = 0.02 * M.u
    k = len(views)
    kw = [dict(omega="idzorek", view_confidences={v: 0.3 + 0.2 * i for i, v in enumerate(views)}), {}, dict(omega=np.diag([0.01 + 0.002 * i for i in range(k)]) * M.u ** 2)][M.k3]
    src = [dict(market_weights=M.plain(M.w0), risk_aversion=2.5 / M.u) if abs(M.w0.sum()) > 0.05 else dict(pi=M.vec(M.mu)), dict(pi=M.vec(M.mu)), dict(prior_mean=M.vec(M.mu))][M.pick % 3]
    m, S = pv.BlackLittermanProcessor(prior_cov=M.mat(M.S), mean_views=views, tau=0.05 + 0.1 * M.k3, **src, **kw).get_posterior()
    return {"mean": (m, 1, dict(rtol=1e-7)), "cov": (S, 2, dict(rtol=1e-7))}


@op(NUMERIC, "flexible views")
def _(M):
    pv = lib()
    R, p, u = M.R, M.p, M.u
    m, sd = p @ R, np.sqrt(p @ (R - p @ R) ** 2)
    kw = {}
    if "mean" in M.vkinds:
        kw["mean_views"] = {M.skey(0): float((m[0] + 0.2 * sd[0]) * u)}
        if M.n > 1:
            kw["mean_views"][(M.skey(0), M.skey(1))] = (">=", float((m[0] - m[1]) * u))
    if "vol" in M.vkinds:
        kw["vol_views"] = {M.skey(M.n - 1): ("<=" if M.k3 else "==", float(0.93 * sd[-1] * u))}
    if "skew" in M.vkinds:
        z = (R[:, 0] - m[0]) / sd[0]
        kw["skew_views"] = {M.skey(0): float(p @ z ** 3 - 0.1)}
    if "rank" in M.vkinds and M.n > 1:
        kw["rank_mean"] = [M.skey(i) for i in M.order]
    if "corr" in M.vkinds and M.n > 1:
        c = float(p @ ((R[:, 0] - m[0]) * (R[:, -1] - m[-1])) / (sd[0] * sd[-1]))
        kw["corr_views"] = {(M.skey(0), M.skey(M.n - 1)): float(np.clip(c + 0.05, -0.95, 0.95))}
    if "cvar" in M.vkinds:
        s = np.sort(R[:, -1])
        kw["cvar_views"] = {M.skey(M.n - 1): ("<=", float(np.mean(s[: max(2, M.T // 8)]) * u * (0.98 if s[0] > 0 else 1.02)))}
        kw["cvar_gamma"] = 0.8
    try:
        f = pv.FlexibleViewsProcessor(M.scen(), p, sequential=M.seq, **kw)
    except TypeError:
        kw.pop("cvar_views", None), kw.pop("cvar_gamma", None)
        f = pv.FlexibleViewsProcessor(M.scen(), p, sequential=M.seq, **kw)
    pm, pS = f.get_posterior()
    return {"q": (f.get_posterior_probabilities(), 0, dict(rtol=2e-3, atol=2e-4)), "mean": (pm, 1, dict(rtol=2e-3)), "cov": (pS, 2, dict(rtol=2e-3))}


@op(NUMERIC, "views on prior moments")
def _(M):
    pv = lib()
    f = pv.FlexibleViewsProcessor(prior_mean=M.vec(M.mu), prior_cov=M.mat(M.S), num_scenarios=120, random_state=5, mean_views={M.skey(0): (">=", float((M.mu[0] + 0.1 * np.sqrt(M.S[0, 0])) * M.u))})
    pm, pS = f.get_posterior()
    return {"q": (f.get_posterior_probabilities(), 0, dict(rtol=2e-3, atol=1e-4)), "mean": (pm, 1, dict(rtol=1e-3)), "cov": (pS, 2, dict(rtol=1e-3))}


@op(NUMERIC, "entropy pooling")
def _(M):
    """A view row may be quoted in any unit."""
    R, p = M.R, M.p
    m, sd = p @ R, np.sqrt(p @ (R - p @ R) ** 2)
    A, b = np.vstack([np.ones(M.T), R[:, 0] * M.u]), np.array([1.0, (m[0] + 0.3 * sd[0]) * M.u])
    G, h = (R[:, -1] * M.u)[None], np.array([(m[-1] + 0.4 * sd[-1]) * M.u])
    return {"q": (lib().entropy_pooling(p, A, b, G, h), 0, dict(rtol=1e-3, atol=1e-5))}


@op(NUMERIC, "kernel probabilities")
def _(M):
    pv = lib()
    x = M.R[:, 0] * M.u
    return {"bandwidth": (pv.silverman_bandwidth(x), 1, EXACT), "default": (pv.generate_gaussian_kernel_probabilities(x), 0, dict(rtol=1e-8, atol=1e-13)),
            "given": (pv.generate_gaussian_kernel_probabilities(x, h=0.03 * M.u, x_T=0.01 * M.u), 0, dict(rtol=1e-8, atol=1e-13))}


# ------------------------------------------------------------------ risk and reports
@op(NUMERIC, "risk measures")
def _(M):
    pv = lib()
    from pyvallocation.utils import functions as fn
    R, X = np.asarray(M.R) * M.u, np.asarray(M.X)
    return {"cvar": (fn.portfolio_cvar(X, R, M.p, confidence=M.conf), 1, EXACT), "var": (fn.portfolio_var(X, R, M.p, confidence=M.conf), 1, EXACT),
            "variance": (pv.portfolio_variance(X, np.asarray(M.S) * M.u ** 2), 2, EXACT), "volatility": (pv.portfolio_volatility(X, np.asarray(M.S) * M.u ** 2), 1, EXACT), "pnl": (pv.scenario_pnl(M.plain(M.w0), M.scen()), 1, EXACT)}


def _table(t, tol):
    t = t.to_frame().T if isinstance(t, pd.Series) else t
    out = {}
    for c in t.columns:
        if t[c].dtype == object:
            continue
        out[str(c)] = (t[c].to_numpy(float), 0 if str(c).startswith(("ENS", "KL")) else 1, tol)
    return out


@op(NUMERIC, "reports")
def _(M):
    pv = lib()
    X = pd.DataFrame(M.X[:, :2], index=M.lab, columns=["A", "B"]) if M.labelled else M.X[:, :2]
    R, p, conf = M.scen(), M.p, M.conf
    tables = {"report": pv.performance_report(M.plain(M.w0), R, probabilities=p, confidence=conf, demean=bool(M.k3 == 1)),
              "plain": pv.stress_test(X, R, probabilities=p, stressed_probabilities=M.p2, confidence=conf, demean=bool(M.k3 == 2)),
              "map": pv.stress_test(X, R, probabilities=p, transform=pv.linear_map(mean_shift=M.mu * M.u / 40, scale=1.3, matrix=np.eye(M.n) + 0.1 * M.S2), confidence=conf),
              "kernel": pv.kernel_focus_stress(X, R, focus_series=M.R[:, 0] * M.u, target=float(M.R[:, 0].mean() * M.u), probabilities=p, confidence=conf),
              "decay": pv.exp_decay_stress(X, R, probabilities=p, half_life=4), "pooled": pv.entropy_pooling_stress(X, R, posterior_probabilities=M.p2, probabilities=p, confidence=conf)}
    return {f"{k} {c}": v for k, t in tables.items() for c, v in _table(t, dict(rtol=1e-7)).items()}


@op(NUMERIC, "linear projection")
def _(M):
    pv = lib()
    R = M.scen()
    a, b = pv.project_mean_covariance(M.vec(M.mu), M.mat(M.S), 12.0)
    lin = lambda x: np.asarray(x, float)
    taylor = lambda x: pv.reprice_taylor(x, delta=-4.0 * np.ones(M.n), gamma=30.0 / M.u * np.ones(M.n), theta=0.01 * M.u, tau=0.25)
    rp, _ = pv.compose_repricers({"x": ([M.lab[0]], lin), "y": ([M.lab[-1], M.lab[0]], lambda z: z[:, 0] - 0.5 * z[:, 1])}, list(M.lab))
    kw = dict(p=M.p, seed=3)
    return {"mean": (a, 1, EXACT), "cov": (b, 2, EXACT), "projected": (pv.project_scenarios(R, investment_horizon=3, n_simulations=20, reprice=lin, **kw), 1, EXACT),
            "paths": (pv.simulate_paths(R, horizon=3, n_paths=15, reprice=lin, **kw), 1, EXACT), "taylor": (taylor(np.asarray(R, float)), 1, EXACT), "instruments": (rp(np.asarray(R, float)), 1, EXACT)}


@op(NUMERIC, "stressed invariants")
def _(M):
    pv = lib()
    X = pd.DataFrame(np.asarray(M.R) * M.u, columns=M.lab)
    lin = lambda x: np.asarray(x, float)
    views = {M.lab[0]: ("<=", float((M.R[:, 0].mean() - 0.1 * M.R[:, 0].std()) * M.u))} if M.k3 else None
    t = pv.stress_invariants(X, np.array([0.6, 0.4]), {"x": ([M.lab[0]], lin), "y": ([M.lab[-1]], lin)}, stress_views=views, horizon=2, n_simulations=60, seed=5)
    return _table(t, dict(rtol=1e-8) if views is None else dict(skip=True))


@op(NUMERIC, "distribution from invariants")
def _(M):
    d = lib().PortfolioWrapper.from_invariants(pd.DataFrame(np.asarray(M.R) * M.u, columns=M.lab), horizon=3, n_simulations=40, p=M.p, reprice=lambda x: np.asarray(x, float), seed=6).dist
    return {"scenarios": (d.scenarios, 1, EXACT)}


# ------------------------------------------------------------------ portfolios
def _spread(M, mu):
    poly = Poly.from_spec(M.n, M.spec)
    return poly.lp(mu).fun, -poly.lp(-mu).fun


def _costs(M, kind):
    """Market impact is measured like variance, proportional costs like return."""
    if not M.costs:
        return {}
    kw = dict(market_impact_costs=M.impact * M.u ** 2) if kind == "impact" else dict(proportional_costs=M.prop * M.u)
    return dict(costs=lib().TransactionCosts(initial_weights=M.plain(M.w0), **kw))


def _wr(M, **kw):
    return lib().PortfolioWrapper(lib().AssetsDistribution(mu=M.vec(M.mu), cov=M.mat(M.S)), constraints=M.spec, **kw)


def _sn(M, lim=0.01):
    return dict(metric=M.S, lim=lim)


@op(CHOICE, "variance frontier")
def _(M):
    f = _wr(M, **_costs(M, "impact")).variance_frontier(4)
    return {"weights": (f.weights, 0, _sn(M)), "returns": (f.returns, 1, dict(rtol=1e-4, vol=2e-3)), "risks": (f.risks, 1, dict(rtol=2e-4))}


@op(CHOICE, "variance at a return")
def _(M):
    lo, hi = _spread(M, M.mu)
    w, r, s = _wr(M, **_costs(M, "impact")).min_variance_at_return(float((lo + 0.95 * M.frac * (hi - lo)) * M.u))
    return {"weights": (w, 0, _sn(M)), "return": (r, 1, dict(rtol=1e-4, vol=2e-3)), "risk": (s, 1, dict(rtol=2e-4))}


@op(CHOICE, "selection from a frontier")
def _(M):
    """The same columns drawn once, quoted in the unit."""
    pv = lib()
    X = np.asarray(M.X)
    order = np.argsort(np.sqrt(np.einsum("ij,ik,kj->j", X, M.S, X)))
    X = X[:, order]
    r, s = M.mu @ X, np.sqrt(np.einsum("ij,ik,kj->j", X, M.S, X))
    f = pv.PortfolioFrontier(weights=X, returns=r * M.u, risks=s * M.u, risk_measure="Volatility", asset_names=M.lab)
    pick = {"min risk": f.min_risk(), "max return": f.max_return(), "tangency": f.tangency(float((r.min() - 0.01 + 0.02 * M.frac) * M.u)), "at percentile": f.at_percentile(M.frac)}
    mid = 0.5 * (s[1] + s[2]) * M.u
    pick["at risk"] = f.at_risk(float(mid))
    rs = np.sort(r)
    pick["at return"] = f.at_return(float(0.5 * (rs[2] + rs[3]) * M.u))
    pick["closest risk"] = f.closest_risk(float(mid * 1.003))
    out = {}
    for k, (w, a, b) in pick.items():
        out[f"{k} weights"], out[f"{k} return"], out[f"{k} risk"] = (w, 0, EXACT), (a, 1, EXACT), (b, 1, EXACT)
    return out


@op(CHOICE, "maximum Sharpe ratio")
def _(M):
    pv = lib()
    lo, hi = _spread(M, M.mu)
    spec = {k: v for k, v in M.spec.items() if k not in ("additional_A_b", "total_weight")}
    G, h, A, b = pv.Constraints.from_dict(dict(spec)).to_matrices(M.n)
    hi = -Poly.from_spec(M.n, spec).lp(-M.mu).fun
    rf = (hi - 0.02 - 0.1 * M.frac) * M.u
    s = pv.MeanVariance(M.mu * M.u, M.S * M.u ** 2, G=G, h=h, A=A, b=b).max_sharpe(float(rf))
    return {"weights": (s.weights, 0, _sn(M)), "ratio": ((s.nominal_return - rf) / s.risk, 0, dict(rtol=1e-5))}


@op(CHOICE, "cvar at a return")
def _(M):
    m = M.p @ M.R
    lo, hi = _spread(M, m)
    wr = lib().PortfolioWrapper.from_scenarios(M.scen(), probabilities=M.p, constraints=M.spec, **_costs(M, "prop"))
    w, r, s = wr.min_cvar_at_return(float((lo + 0.9 * M.frac * (hi - lo)) * M.u), alpha=M.alpha)
    return {"risk": (s, 1, dict(rtol=1e-5, vol=1e-5))} if not M.costs else {"cost of the plan": ((s / M.u + np.abs(np.asarray(w, float) - M.w0) @ M.prop) * M.u, 1, dict(rtol=1e-5, vol=1e-5))}


@op(CHOICE, "cvar frontier")
def _(M):
    wr = lib().PortfolioWrapper(lib().AssetsDistribution(scenarios=M.scen(), probabilities=M.p), constraints=M.spec)
    f = wr.cvar_frontier(4, alpha=M.alpha)
    return {"returns": (f.returns, 1, dict(rtol=1e-5, vol=1e-4, ties=True)), "risks": (f.risks, 1, dict(rtol=1e-5, vol=1e-4))}


@op(CHOICE, "robust frontier")
def _(M):
    f = _wr(M, **_costs(M, "prop")).robust_lambda_frontier(lambdas=[0.2, 0.9], return_cov=M.mat(M.S2))
    lam = np.array([m["lambda"] for m in f.metadata])
    o = np.argsort(lam)                                     # columns go by risk, which ties may order either way
    W, lam, risks, vols = np.asarray(f.weights, float)[:, o], lam[o], np.asarray(f.risks)[o], np.asarray(f.alternate_risks["Volatility"])[o]
    cost = np.abs(W - M.w0[:, None]).T @ M.prop if M.costs else 0.0
    rho = np.sqrt(np.einsum("ij,ik,kj->j", W, M.S, W))
    return {"radius": (risks / M.u - rho, 0, dict(atol=2e-5)), "worst case": ((M.mu @ W - lam * rho - cost), 0, dict(rtol=1e-5, atol=1e-6)), "volatility": (vols / M.u - np.sqrt(np.einsum("ij,ik,kj->j", W, M.S2, W)), 0, dict(atol=1e-9)), "lambdas": (lam, 0, EXACT)}


@op(CHOICE, "robust budget")
def _(M):
    """The cap is a square of return units."""
    lo = np.sqrt(_min_var(M))
    w, r, s = _wr(M).solve_robust_gamma_portfolio(0.3 + M.frac, float((lo * (1.05 + M.frac)) ** 2 * M.u ** 2))
    w = np.asarray(w, float)
    return {"worst case": (M.mu @ w - (0.3 + M.frac) * np.sqrt(w @ M.S @ w), 0, dict(rtol=1e-4, atol=1e-5)), "weights": (w, 0, _sn(M, 0.03))}


def _min_var(M):
    W = np.asarray(lib().PortfolioWrapper(lib().AssetsDistribution(mu=M.mu, cov=M.S), constraints=M.spec).variance_frontier(2).weights)[:, 0]
    return float(W @ M.S @ W)


@op(CHOICE, "relaxed risk parity")
def _(M):
    wr = lib().PortfolioWrapper.from_moments(M.vec(np.abs(M.mu) + 0.01), M.mat(M.S))
    kw = dict(risk_budgets=M.budgets) if M.k3 else {}
    w, r, s, dg = wr.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=[0.0, 0.2, 1.0][M.pick % 3], target_multiplier=[1.0, 1.1, 1.4][M.k3], **kw)
    return {"weights": (w, 0, _sn(M, 0.01)), "return": (r, 1, dict(rtol=1e-3, vol=2e-3)), "risk": (s, 1, dict(rtol=1e-3))}


@op(CHOICE, "relaxed risk parity frontier")
def _(M):
    wr = lib().PortfolioWrapper.from_moments(M.vec(np.abs(M.mu) + 0.01), M.mat(M.S))
    f = wr.relaxed_risk_parity_frontier(num_portfolios=3, lambda_reg=0.2)
    return {"weights": (f.weights, 0, _sn(M, 0.015)), "returns": (f.returns, 1, dict(rtol=2e-3, vol=3e-3)), "risks": (f.risks, 1, dict(rtol=2e-3))}


@op(CHOICE, "assembled ensemble")
def _(M):
    pv = lib()
    R = pd.DataFrame(np.asarray(M.R) * M.u, columns=M.lab)
    mk = lambda n, **k: pv.make_portfolio_spec(n, returns=R, probabilities=M.p, optimiser_kwargs=dict(num_portfolios=4, constraints=M.spec), **k)
    a = mk("a", optimiser="mean_variance", selector="min_risk")
    b = mk("b", optimiser="mean_variance", projection=dict(annualization_factor=12.0), selector=["min_risk", "max_return", "min_risk"][M.k3], **({} if M.pick % 2 else dict(cov_estimator="oas")))
    r = pv.assemble_portfolio_ensemble([a, b], ensemble="average")
    rel = lambda w: w.reindex(M.lab).to_numpy()
    return {"first": (rel(r.selections["a"]), 0, dict(metric=np.cov(M.R.T).reshape(M.n, M.n), lim=0.01)), "average": (rel(r.average), 0, dict(metric=np.cov(M.R.T).reshape(M.n, M.n), lim=0.01, skip=M.k3 == 1))}


# ------------------------------------------------------------------ execution
def _data(case):
    n, T = case.choice([2, 3, 3, 4, 5]) if not case.chance(0.04) else case.int(6, 14), case.choice([18, 25, 32])
    R = 0.03 * (case.normal(T, n) + 0.5 * case.normal(T, 1)) * case.uniform(0.6, 1.6, n) + case.uniform(-0.005, 0.015, n)
    R = np.clip(R + 1e-3 * np.sin(1 + np.outer(np.arange(T), 1 + np.arange(n))), -0.5, 0.5)
    mu, S = moments(case, n, hetero=False)
    mu2, S2 = moments(case, n, hetero=False)
    spec, w0 = constraint_spec(case, n)
    d = dict(n=n, T=T, lab=[str(x) for x in names(case, n)], labelled=case.bool(), R=R, mu=mu + 1e-4 * np.arange(n), S=S, mu2=mu2, S2=S2, spec=spec, w0=w0, p=probs(case, T, zeros=False), p2=probs(case, T, zeros=False), frac=case.float(0, 1),
             alpha=case.choice([0.1, 0.25]), conf=case.choice([0.8, 0.9, 0.95]), costs=case.chance(0.4), impact=case.uniform(0.01, 0.2, n), prop=case.uniform(0, 0.01, n), budgets=simplex_point(case, n, 0.3), k3=case.int(0, 2), pick=case.int(0, 5),
             seq=case.bool(), order=[int(i) for i in case.perm(n)], vkinds=[k for k in ("mean", "vol", "skew", "rank", "corr", "cvar") if case.chance(0.4)] or ["mean"], X=np.column_stack([simplex_point(case, n) for _ in range(5)]))
    return d


def _run(fn, M):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", fn(M)
        except Exception as exc:                                            # noqa: BLE001 - outcomes are compared
            return type(exc).__name__, str(exc)[:200]


def _compare(case, name, a, b, u, vol, S):
    case.check(a[0] == b[0], f"{name}: {a[0]} ({str(a[1])[:100]}) for returns in unit 1, {b[0]} ({str(b[1])[:100]}) in unit {u:g}")
    if a[0] != "ok":
        return False
    case.check(set(a[1]) == set(b[1]), f"{name}: other figures in unit {u:g}: {sorted(set(a[1]) ^ set(b[1]))}")
    for k, (x, power, o) in a[1].items():
        if o.get("skip"):
            continue
        x, y = np.asarray(x, float), np.asarray(b[1][k][0], float) / u ** power
        case.check(x.shape == y.shape, f"{name}: {k} has shape {x.shape} in unit 1, {y.shape} in unit {u:g}")
        if "metric" in o:
            D = (y - x).reshape(x.shape[0], -1)
            dist = np.sqrt(np.max(np.einsum("ik,ij,jk->k", D, o["metric"], D), initial=0.0))
            case.check(dist <= o["lim"] * np.sqrt(np.mean(np.diag(o["metric"]))), f"{name}: {k} differ by {dist:.3g} in risk when returns are quoted in unit {u:g}", base=x, other=y)
        else:
            atol = o.get("atol", 0.0) + o.get("rtol", 0.0) * float(np.max(np.abs(x), initial=0)) + o.get("vol", 0.0) * vol
            case.close(y, x, f"{name}: {k} when returns are quoted in unit {u:g}", rtol=0.0, atol=max(atol, 1e-13))
    return True


def _facet(case, table):
    d = _data(case)
    name, u = case.choice(sorted(table)), case.choice(UNITS)
    case.note(op=name, unit=u, **{k: d[k] for k in ("n", "T", "mu", "S", "spec", "frac", "costs", "k3", "pick", "vkinds", "labelled")})
    a, b = _run(table[name], Market(d, 1.0)), _run(table[name], Market(d, u))
    ok = _compare(case, name, a, b, u, float(np.sqrt(np.mean(np.diag(d["S"])))), d["S"])
    case.event(name)
    case.event("errors alike", not ok)
    case.nontrivial(ok)


@facet("C40", quick=1900, rule="one drawn estimator, Bayesian model, set of views, risk measure, report or projection on the same data with returns quoted in unit 1 and in another unit: every figure follows its dimension; non-trivial = succeeds")
def figures_follow_the_unit(case):
    _facet(case, NUMERIC)


@facet("C40", quick=900, rule="one drawn optimiser, frontier, selector or ensemble on the same data in unit 1 and in another unit: the same portfolio (risk distance) and figures that follow their dimension; non-trivial = succeeds")
def portfolios_ignore_the_unit(case):
    _facet(case, CHOICE)


@facet("C40", quick=1100, rule="drawn weights, prices, lot sizes and budget, and all money restated in another currency: the same holdings, cash restated; prices of each asset restated separately leave the returns alone; non-trivial = something is bought")
def holdings_ignore_the_currency(case):
    pv = lib()
    n = case.int(1, 5)
    lab = [str(x) for x in names(case, n)]
    k = 2.0 ** case.choice([-20, -10, -7, -3, 3, 7, 10, 20])
    w = simplex_point(case, n) * case.choice([1.0, 1.0, 0.9])
    prices = np.round(np.exp(case.uniform(np.log(5), np.log(300), n)), 2)
    cash = float(case.choice([500.0, 3000.0, 10007.3, 54321.0, 1e6]))
    lots = {lab[i]: case.choice([1, 1, 2, 5]) for i in range(n)} if case.bool() else None
    case.note(weights=w, prices=prices, cash=cash, lots=lots, currency=k)
    ser = lambda v: pd.Series(v, index=lab)
    kw = dict(lot_sizes=lots) if lots else {}
    a, b = (pv.discretize_weights(ser(w), ser(prices * c), cash * c, method="greedy", **kw) for c in (1.0, k))
    case.check(dict(a.shares) == dict(b.shares), "greedy holdings change with the currency", base=dict(a.shares), other=dict(b.shares))
    case.close(b.leftover_cash / k, a.leftover_cash, "cash left over", rtol=1e-9, atol=1e-9 * cash)
    case.close(np.asarray(b.achieved_weights, float), np.asarray(a.achieved_weights, float), "achieved weights", atol=1e-12)
    case.close(b.tracking_error, a.tracking_error, "tracking error", rtol=1e-9, atol=1e-12)
    if case.chance(0.15):
        a, b = (pv.discretize_weights(ser(w), ser(prices * c), cash * c, method="mip", **kw) for c in (1.0, k))
        cost = lambda r, c: np.abs(np.asarray(r.achieved_weights, float) - w).sum() + r.leftover_cash / (cash * c)
        case.close(cost(b, k), cost(a, 1.0), "objective of the integer programme", atol=2.5e-3)
    P = 100 * np.cumprod(1 + 0.02 * case.normal(12, n), axis=0)
    scale = np.array([2.0 ** case.int(-8, 8) for _ in range(n)])
    x, y = (pv.PortfolioWrapper.from_prices(pd.DataFrame(q, columns=lab)).dist for q in (P, P * scale))
    case.close(np.asarray(y.mu, float), np.asarray(x.mu, float), "mean returns from prices in another currency", rtol=1e-12, atol=1e-15)
    case.close(np.asarray(y.cov, float), np.asarray(x.cov, float), "covariance from prices in another currency", rtol=1e-12, atol=1e-15)
    case.nontrivial(bool(a.shares))
