"""C35: asset order does not matter, labels follow their assets, scenario order does not matter."""
import warnings
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, names, probs, simplex_point, Poly
from .c_mv import lib


def permute_spec(spec, p):
    """The same constraints for assets listed in the order p (new position k holds old asset p[k])."""
    inv = {old: k for k, old in enumerate(p)}
    out = dict(spec)
    b = spec.get("bounds")
    if isinstance(b, dict):
        out["bounds"] = {inv[k]: v for k, v in b.items()}
    elif isinstance(b, list):
        out["bounds"] = [b[i] for i in p]
    if spec.get("relative_bounds"):
        out["relative_bounds"] = [(inv[i], inv[j], k) for i, j, k in spec["relative_bounds"]]
    if spec.get("group_constraints"):
        out["group_constraints"] = {g: ([inv[i] for i in idx], lo, hi) for g, (idx, lo, hi) in spec["group_constraints"].items()}
    for key in ("additional_G_h", "additional_A_b"):
        if spec.get(key):
            out[key] = [(np.asarray(r, float)[list(p)], v) for r, v in spec[key]]
    return out


class World:
    """One set of market data presented in a chosen asset order, scenario order and container."""

    def __init__(self, data, perm, sperm, labelled):
        self.d, self.perm, self.sperm, self.labelled = data, list(perm), list(sperm), labelled
        self.n, self.T = data["n"], data["T"]
        self.lab = [data["lab"][i] for i in self.perm]
        self.inv = {old: k for k, old in enumerate(self.perm)}
        self.spec = permute_spec(data["spec"], self.perm)
        self.problems = []
        self.shuffle_at, self.order2, self.count, self.cov_axes = None, None, 0, "01"
        self.rename = None

    def _given(self, obj, axes):
        """In a mixed-order world one labelled input comes in another asset order."""
        if not self.labelled:
            return obj
        self.count += 1
        if self.count != self.shuffle_at:
            return obj
        if self.rename is not None:                      # one label names an asset nothing else mentions
            new = {self.lab[self.rename]: "another one"}
            return obj.rename(new) if axes == "0" and isinstance(obj, pd.Series) else obj.rename(index=new) if axes == "0" else obj.rename(columns=new) if axes == "1" else obj.rename(index=new, columns=new)
        o = self.order2
        return obj.iloc[o] if axes == "0" else obj.iloc[:, o] if axes == "1" else obj.iloc[o, o]

    # ---- inputs
    def vec(self, v):
        v = np.asarray(v, float)[self.perm]
        return self._given(pd.Series(v, index=self.lab), "0") if self.labelled else v

    def ser(self, v):
        """A labelled series in either presentation (for interfaces that require labels)."""
        return pd.Series(np.asarray(v, float)[self.perm], index=self.lab)

    def mat(self, M):
        M = np.asarray(M, float)[np.ix_(self.perm, self.perm)]
        return self._given(pd.DataFrame(M, index=self.lab, columns=self.lab), self.cov_axes) if self.labelled else M

    def scen(self, R, ordered=False):
        R = np.asarray(R, float)[:, self.perm]
        R = R if ordered else R[self.sperm]
        return self._given(pd.DataFrame(R, columns=self.lab), "1") if self.labelled else R

    def frame(self, R, ordered=True):
        R = np.asarray(R, float)[:, self.perm]
        return pd.DataFrame(R if ordered else R[self.sperm], columns=self.lab)

    def p(self, v=None):
        return np.asarray(self.d["p"] if v is None else v, float)[self.sperm]

    def rows(self, X, cols=None):
        X = np.asarray(X, float)[self.perm]
        return self._given(pd.DataFrame(X, index=self.lab, columns=cols), "0") if self.labelled else X

    def key(self, i):
        """View key of base asset i."""
        return self.d["lab"][i] if self.labelled else self.inv[i]

    def skey(self, i):
        return self.d["lab"][i] if self.labelled else str(self.inv[i])

    # ---- outputs in base order
    def _labels(self, got, what):
        if self.shuffle_at is not None and sorted(map(str, got)) == sorted(map(str, self.lab)):
            return
        if list(got) != self.lab:
            self.problems.append(f"{what}: labels {list(got)}, assets are {self.lab}")

    def back(self, kind, val, what):
        inv = [self.inv[i] for i in range(self.n)]
        if self.shuffle_at is not None:                  # by label, whatever the order
            val = val.reindex(self.lab) if isinstance(val, pd.Series) and kind[:3] == "vec" else val.reindex(index=self.lab, columns=self.lab) if isinstance(val, pd.DataFrame) and kind[:3] == "mat" else val
        soft = kind.endswith("~")                       # container not prescribed
        kind = kind.rstrip("~")
        if kind == "vec":
            if isinstance(val, pd.Series):
                if self.labelled:
                    self._labels(val.index, what)
            elif self.labelled and not soft:
                self.problems.append(f"{what}: labelled inputs gave {type(val).__name__}")
            return np.asarray(val, float)[inv]
        if kind == "mat":
            if isinstance(val, pd.DataFrame):
                if self.labelled:
                    self._labels(val.index, what)
                    self._labels(val.columns, what)
            elif self.labelled and not soft:
                self.problems.append(f"{what}: labelled inputs gave {type(val).__name__}")
            return np.asarray(val, float)[np.ix_(inv, inv)]
        if kind == "rows":
            if isinstance(val, pd.DataFrame) and self.labelled:
                self._labels(val.index, what)
            return np.asarray(val, float)[inv]
        if kind == "cols":
            if isinstance(val, pd.DataFrame) and self.labelled:
                self._labels(val.columns, what)
            return np.asarray(val, float)[..., inv]
        if kind == "scen":
            q = np.empty(self.T)
            q[self.sperm] = np.asarray(val, float).ravel()
            return q
        if kind == "dict":
            return np.array([float(val.get(k, 0)) for k in self.d["lab"]])
        return np.asarray(val, float)


OPS = {}


def op(name, scen=False, weight=1):
    """scen: scenario order may change too."""
    def deco(fn):
        OPS[name] = (fn, scen)
        return fn
    return deco


# ------------------------------------------------------------------ optimisers
def _sn(W):
    return dict(metric=W.d["S"])


def _frontier(W, f, weights=True, unique=True, tol=2e-4):
    W_ = f.weights
    if W.labelled:
        W._labels(f.asset_names or [], "frontier")
    if W.shuffle_at is not None:
        W_ = f.to_frame().reindex(W.lab).to_numpy()
    out = {"returns": ("inv", f.returns, dict(rtol=tol, atol=2e-4)), "risks": ("inv", f.risks, dict(rtol=tol, atol=2e-5))}
    if unique:
        out["weights"] = ("rows", W_, dict(metric=W.d["S"]))
    fr = f.to_frame()
    if W.labelled:
        W._labels(fr.index[: W.n] if fr.shape[0] >= W.n else fr.index, "to_frame")
    return out


def _spread(W, mu):
    """Attainable return range under the base constraints."""
    poly = Poly.from_spec(W.n, W.d["spec"])
    return poly.lp(mu).fun, -poly.lp(-mu).fun


def _costs(W, kind):
    pv = lib()
    if not W.d["costs"]:
        return {}
    kw = dict(market_impact_costs=W.vec(W.d["impact"])) if kind == "impact" else dict(proportional_costs=W.vec(W.d["prop"]))
    return dict(costs=pv.TransactionCosts(initial_weights=W.vec(W.d["w0"]), **kw))


@op("minimum variance at a return")
def _(W):
    pv = lib()
    lo, hi = _spread(W, W.d["mu"])
    t = lo + W.d["u"] * 0.9 * (hi - lo)
    w, r, s = pv.PortfolioWrapper.from_moments(W.vec(W.d["mu"]), W.mat(W.d["S"]), constraints=W.spec, **_costs(W, "impact")).min_variance_at_return(float(t))
    return {"w": ("vec~" if not W.labelled else "vec", w, _sn(W)), "risk": ("inv", s, dict(rtol=2e-4, atol=1e-5))}


@op("variance frontier")
def _(W):
    pv = lib()
    wr = pv.PortfolioWrapper(pv.AssetsDistribution(mu=W.vec(W.d["mu"]), cov=W.mat(W.d["S"])), constraints=W.spec, **_costs(W, "impact"))
    f = wr.variance_frontier(4)
    out = _frontier(W, f)
    k = min(2, int(3 * W.d["u"]))
    if len(f.returns) < 4:
        return out
    w, r, s = f.at_return(float(0.5 * (f.returns[k] + f.returns[k + 1]))) if f.returns[k + 1] > f.returns[k] + 1e-6 else f.min_risk()
    out["selected"] = ("vec", w, _sn(W))
    return out


@op("cvar at a return", scen=True)
def _(W):
    pv = lib()
    m = W.d["p"] @ W.d["R"]
    lo, hi = _spread(W, m)
    t = lo + W.d["u"] * 0.9 * (hi - lo)
    wr = pv.PortfolioWrapper.from_scenarios(W.scen(W.d["R"]), probabilities=W.p(), constraints=W.spec, **_costs(W, "prop"))
    w, r, s = wr.min_cvar_at_return(float(t), alpha=W.d["alpha"])
    return {"labels": ("vec", w, dict(skip=True)), "risk": ("inv", s, dict(rtol=2e-4, atol=2e-5))}


@op("cvar frontier", scen=True)
def _(W):
    pv = lib()
    wr = pv.PortfolioWrapper(pv.AssetsDistribution(scenarios=W.scen(W.d["R"]), probabilities=W.p()), constraints=W.spec)
    return _frontier(W, wr.cvar_frontier(3, alpha=W.d["alpha"]), unique=False)


@op("robust frontier")
def _(W):
    pv = lib()
    wr = pv.PortfolioWrapper(pv.AssetsDistribution(mu=W.vec(W.d["mu"]), cov=W.mat(W.d["S"])), constraints=W.spec, **_costs(W, "prop"))
    return _frontier(W, wr.robust_lambda_frontier(lambdas=[0.2, 0.9], return_cov=W.mat(W.d["S2"])), tol=5e-4)


@op("robust budget")
def _(W):
    pv = lib()
    wr = pv.PortfolioWrapper.from_moments(W.vec(W.d["mu"]), W.mat(W.d["S"]), constraints=W.spec)
    w, r, s = wr.solve_robust_gamma_portfolio(0.3 + W.d["u"], 1.0)
    return {"w": ("vec", w, _sn(W)), "value": ("inv", r, dict(rtol=2e-4, atol=2e-5))}


@op("risk parity")
def _(W):
    pv = lib()
    wr = pv.PortfolioWrapper.from_moments(W.vec(W.d["mu"]), W.mat(W.d["S"]))
    rb = np.asarray(W.d["budgets"])[W.perm] if W.d["bkind"] else None                   # budgets are positional
    w, _, _, dg = wr.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=0.2, risk_budgets=rb, target_multiplier=W.d["mult"])
    return {"w": ("vec", w, _sn(W))}


# ------------------------------------------------------------------ moments
MEANS = ["sample", "jorion", "james_stein", "huber"]
COVS = ["sample", "ledoit_wolf", "oas", "nls", "poet", "tyler", "glasso"]


@op("moment estimators", scen=True)
def _(W):
    pv = lib()
    c = W.d["cov_est"]
    ck = dict(ledoit_wolf=dict(target=W.d["lw"]), poet=dict(k=1), tyler=dict(shrinkage=0.1), glasso=dict(alpha=0.05 * float(np.mean(W.d["R"].var(0))))).get(c, {})
    uniform = c in ("sample",) and W.d["mean_est"] == "sample"
    m, S = pv.estimate_moments(W.scen(W.d["R"]), W.p() if uniform else None, mean_estimator=W.d["mean_est"], cov_estimator=c, cov_kwargs=ck)
    tol = dict(rtol=2e-3 if c == "glasso" else 1e-5 if c in ("tyler", "nls") else 1e-7, scale=True)
    return {"mean": ("vec", m, dict(rtol=1e-5 if W.d["mean_est"] == "huber" else 1e-7, scale=True)), "cov": ("mat", S, tol)}


@op("order-dependent estimators")
def _(W):
    pv = lib()
    R = W.scen(W.d["R"], ordered=True)
    return {"ewma": ("mat", pv.covariance_ewma(R, span=10), dict(rtol=1e-9, scale=True)),
            "mom": ("vec", pv.robust_mean_median_of_means(R, n_blocks=4, random_state=3), dict(rtol=1e-9, scale=True))}


@op("pairwise shrinkage")
def _(W):
    pv = lib()
    mu, S, T = W.vec(W.d["mu"]), W.mat(W.d["S"]), W.T
    tgt = W.vec(W.d["w0"]) if W.d["bkind"] else "grand_mean"
    return {"js": ("vec", pv.shrink_mean_james_stein(mu, S, T, target=tgt), dict(rtol=1e-8, scale=True)), "jorion": ("vec", pv.shrink_mean_jorion(mu, S, T) if W.n > 2 else mu, dict(rtol=1e-7, scale=True)),
            "tyler": ("mat", pv.robust_covariance_tyler(W.scen(W.d["R"], ordered=True), shrinkage=0.2, target=W.mat(W.d["S2"])), dict(rtol=1e-5, scale=True)),
            "vol": ("inv", pv.portfolio_volatility(W.vec(W.d["w0"]), S), dict(rtol=1e-10)), "var": ("inv", pv.portfolio_variance(W.rows(W.d["X"]), S), dict(rtol=1e-10, atol=1e-14))}


@op("factor decomposition", scen=True)
def _(W):
    pv = lib()
    S, B, F = pv.factor_covariance_poet(W.scen(W.d["R"]), k=1, return_decomp=True)
    if W.labelled and isinstance(B, pd.DataFrame):
        W._labels(B.index, "loadings")
    B, F = np.asarray(B, float), np.asarray(F, float)                                       # signs are free
    return {"cov": ("mat", S, dict(rtol=1e-7, scale=True)), "loadings": ("mat~", B @ B.T, dict(rtol=1e-6, scale=True)), "scores": ("scen", F[:, 0] * F[np.argsort(W.sperm)[0], 0], dict(rtol=1e-6, scale=True))}


@op("projection of moments")
def _(W):
    pv = lib()
    mu, S = W.vec(W.d["mu"]), W.mat(W.d["S"])
    a, b = pv.log2simple(mu, S)
    c, e = pv.simple2log(a, b)
    g, h = pv.project_mean_covariance(mu, S, 12.0)
    k = dict(rtol=1e-10, scale=True)
    return {"simple mean": ("vec", a, k), "simple cov": ("mat", b, k), "log mean": ("vec", c, k), "log cov": ("mat", e, k), "mean": ("vec", g, k), "cov": ("mat", h, k)}


# ------------------------------------------------------------------ views
@op("niw update")
def _(W):
    pv = lib()
    kw = dict(prior_mu=W.vec(W.d["mu"]), prior_sigma=W.mat(W.d["S"]), t0=12, nu0=25, sample_mu=W.vec(W.d["w0"]), sample_sigma=W.mat(W.d["S2"]), n_obs=50)
    m, S = pv.posterior_moments_niw(**kw)
    q = pv.RobustBayesPosterior.from_niw(**kw)
    k = dict(rtol=1e-9, scale=True)
    return {"mean": ("vec", m, k), "cov": ("mat", S, k), "mu": ("vec", q.mu, k), "s_mu": ("mat", q.s_mu, k), "sigma": ("mat", q.sigma, k), "simple": ("mat", q.mean_uncertainty_cov_simple(annualization_factor=12.0), k)}


@op("black-litterman")
def _(W):
    pv = lib()
    n = W.n
    v = [(0, 0.05), ((1 % n, 0), 0.02)] if n > 1 else [(0, 0.05)]
    if n > 2 and W.d["bkind"]:
        v.append(((2, 0), -0.01))
    if W.d["vorder"]:
        v = v[::-1]
    key = lambda k: tuple(W.key(i) for i in k) if isinstance(k, tuple) else W.key(k)
    views = {key(k): x for k, x in v}
    conf = {key(k): 0.2 + 0.2 * i for i, (k, _) in enumerate(v)}
    kw = [dict(omega="idzorek", view_confidences=conf), {}, dict(omega=np.diag([0.01] * len(v)))][W.d["bkind"] % 3]
    src = [lambda: dict(market_weights=W.vec(W.d["mw"])), lambda: dict(pi=W.vec(W.d["mu"])), lambda: dict(prior_mean=W.vec(W.d["mu"]))][W.d["k3"]]()
    m, S = pv.BlackLittermanProcessor(prior_cov=W.mat(W.d["S"]), mean_views=views, risk_aversion=2.5, **src, **kw).get_posterior()
    k = dict(rtol=1e-8, scale=True)
    return {"mean": ("vec", m, k), "cov": ("mat", S, k)}


@op("flexible views", scen=True)
def _(W):
    pv = lib()
    R, p = W.d["R"], W.d["p"]
    m, sd = p @ R, np.sqrt(p @ (R - p @ R) ** 2)
    kw = {}
    kinds = W.d["vkinds"]
    if "mean" in kinds:
        kw["mean_views"] = {W.skey(0): float(m[0] + 0.2 * sd[0])}
        if W.n > 1:
            kw["mean_views"][(W.skey(0), W.skey(1))] = (">=", float(m[0] - m[1]))
    if "vol" in kinds:
        kw["vol_views"] = {W.skey(W.n - 1): ("<=", float(0.95 * sd[-1]))}
    if "rank" in kinds and W.n > 1:
        kw["rank_mean"] = [W.skey(i) for i in (W.d["order"])]
    if "corr" in kinds and W.n > 1:
        c = float(p @ ((R[:, 0] - m[0]) * (R[:, -1] - m[-1])) / (sd[0] * sd[-1]))
        kw["corr_views"] = {(W.skey(0), W.skey(W.n - 1)): float(np.clip(c + 0.05, -0.95, 0.95))}
    f = pv.FlexibleViewsProcessor(W.scen(R), W.p(), sequential=W.d["seq"], **kw)
    q = f.get_posterior_probabilities()
    pm, pS = f.get_posterior()
    return {"q": ("scen", q, dict(atol=2e-4, rtol=2e-3)), "mean": ("vec", pm, dict(rtol=2e-3, atol=2e-5)), "cov": ("mat", pS, dict(rtol=2e-3, atol=1e-5))}


@op("entropy pooling", scen=True)
def _(W):
    pv = lib()
    R, p = W.d["R"], W.d["p"]
    m, sd = p @ R, np.sqrt(p @ (R - p @ R) ** 2)
    A = np.vstack([np.ones(W.T), R[:, 0]])[:, W.sperm]
    b = np.array([1.0, m[0] + 0.3 * sd[0]])
    G, h = R[:, -1][None, W.sperm], np.array([m[-1] + 0.4 * sd[-1]])
    return {"q": ("scen", pv.entropy_pooling(W.p(), A, b, G, h), dict(atol=1e-5, rtol=1e-3))}


# ------------------------------------------------------------------ ensembles and shares
@op("averages and stacks")
def _(W):
    from pyvallocation import ensembles as en
    X, u = W.d["X"], W.d["weights5"]
    k = X.shape[1]
    c = W.d["cols"]
    panel = W.rows(X, list("abcde")[:k])
    pan2 = W.rows(X[:, c], [list("abcde")[i] for i in c])
    wt = pd.Series(u, index=list("abcde")[:k]) if W.labelled and W.d["bkind"] else np.asarray(u)[c]
    pos = dict(abstol=1e-12, reltol=1e-12, feastol=1e-10)
    return {"average": ("vec", en.average_exposures(panel, u), dict(rtol=1e-10, scale=True)), "reordered": ("vec", en.average_exposures(pan2, wt), dict(rtol=1e-10, scale=True)),
            "stack": ("vec", en.exposure_stacking(panel, 2, solver_options=pos), dict(atol=2e-4)), "stack of one each": ("vec", en.exposure_stacking(pan2, k, solver_options=pos), dict(atol=2e-4))}


@op("blends of portfolios")
def _(W):
    pv = lib()
    X, lab = W.d["X"], W.d["lab"]
    orders = [W.perm] * 3
    ports = [pd.Series(X[o, i], index=[lab[j] for j in o], name=f"p{i}") for i, o in enumerate(orders)]
    s = pv.stack_portfolios(ports, L=3, solver_options=dict(abstol=1e-12, reltol=1e-12, feastol=1e-10))
    return {"stack": ("inv", s.reindex(lab).to_numpy(), dict(atol=2e-4))}


@op("blends of frontiers")
def _(W):
    pv = lib()
    f = [pv.PortfolioFrontier(weights=np.asarray(W.d["X"])[W.perm][:, [0, 1, 2]], returns=np.array([0.01, 0.02, 0.03]), risks=np.array([0.1, 0.12, 0.2]), risk_measure="Volatility", asset_names=W.lab)]
    o = W.perm
    f.append(pv.PortfolioFrontier(weights=np.asarray(W.d["X"])[o][:, [1, 3, 4]], returns=np.array([0.01, 0.02, 0.03]), risks=np.array([0.1, 0.12, 0.2]), risk_measure="Volatility", asset_names=[W.d["lab"][j] for j in o]))
    a = pv.average_frontiers(f)
    s = pv.exposure_stack_frontiers(f, L=2, solver_options=dict(abstol=1e-12, reltol=1e-12, feastol=1e-10))
    out = {}
    for k, v in (("average", a), ("stack", s)):
        if sorted(map(str, v.index)) != sorted(map(str, W.lab)):
            W.problems.append(f"{k}: labels {list(v.index)}")
            continue
        out[k] = ("inv", v.reindex(W.d["lab"]).to_numpy(), dict(atol=2e-4 if k == "stack" else 1e-10))
    return out


@op("assembled ensemble", scen=True)
def _(W):
    pv = lib()
    R = W.frame(W.d["R"], ordered=False)
    a = pv.make_portfolio_spec("a", returns=R, probabilities=W.p(), optimiser="mean_variance", optimiser_kwargs=dict(num_portfolios=4, constraints=W.spec), selector="min_risk")
    b = pv.make_portfolio_spec("b", returns=R, probabilities=W.p(), projection=dict(annualization_factor=12.0, log_to_simple=True), optimiser="mean_variance", optimiser_kwargs=dict(num_portfolios=4, constraints=W.spec), selector="max_return" if W.d["bkind"] else "min_risk")
    r = pv.assemble_portfolio_ensemble([a, b], ensemble="average")
    W._labels(r.selections.index, "selections")
    W._labels(r.average.index, "average")
    S = W.d["S_R"]
    return {"selection": ("inv", r.selections["a"].reindex(W.d["lab"]).to_numpy(), dict(metric=S, rel=True)),
            "average of minimum-risk": ("inv", r.average.reindex(W.d["lab"]).to_numpy(), dict(metric=S, rel=True, skip=bool(W.d["bkind"])))}


@op("allocation of shares")
def _(W):
    pv = lib()
    d = W.d
    kw = {"none": {}, "one": dict(lot_sizes={l: 3 for l in d["lab"]}), "map": dict(lot_sizes={d["lab"][i]: int(d["lots"][i]) for i in W.d["order"]}), "series": dict(lot_sizes=pd.Series(d["lots"], index=d["lab"]))}[d["lotkind"]]
    prices = pd.Series(d["prices"], index=d["lab"])
    pr = prices.iloc[W.d["order"]] if W.perm != list(range(W.n)) else prices
    g = pv.discretize_weights(W.ser(d["wl"]), pr, d["cash"], method="greedy", **kw)
    W._labels(g.achieved_weights.index, "achieved weights")
    out = {"shares": ("dict", g.shares, {}), "cash": ("inv", g.leftover_cash, dict(rtol=1e-9, atol=1e-6)), "achieved": ("vec", g.achieved_weights, {}), "error": ("inv", g.tracking_error, dict(rtol=1e-9, atol=1e-12))}
    W.labelled_out = True
    return out


@op("milp allocation")
def _(W):
    pv = lib()
    d = W.d
    kw = dict(lot_sizes={d["lab"][i]: int(d["lots"][i]) for i in range(W.n)}) if d["lotkind"] != "none" else {}
    g = pv.discretize_weights(W.ser(d["wl"]), pd.Series(d["prices"], index=d["lab"]), d["cash"], method="mip", **kw)
    W._labels(g.achieved_weights.index, "achieved weights")
    held = sum(g.shares.get(d["lab"][i], 0) * d["prices"][i] for i in range(W.n))
    aw = np.array([g.achieved_weights[d["lab"][i]] for i in range(W.n)])
    exp = np.array([g.shares.get(d["lab"][i], 0) * d["prices"][i] / d["cash"] for i in range(W.n)])
    if np.max(np.abs(aw - exp)) > 1e-9 or abs(held + g.leftover_cash - d["cash"]) > 1e-6 * d["cash"]:
        W.problems.append(f"milp: shares {g.shares} do not give the achieved weights {aw}")
    return {"objective": ("inv", np.abs(aw - d["wl"]).sum() + abs(g.leftover_cash) / d["cash"], dict(atol=2.5e-3))}


@op("frontier to shares")
def _(W):
    pv = lib()
    d = W.d
    f = pv.PortfolioFrontier(weights=np.asarray(d["X"])[W.perm][:, :2], returns=np.array([0.01, 0.02]), risks=np.array([0.1, 0.12]), risk_measure="Volatility", asset_names=W.lab)
    g = f.as_discrete_allocation(1, pd.Series(d["prices"], index=d["lab"]), d["cash"])
    return {"shares": ("dict", g.shares, {})}


# ------------------------------------------------------------------ reports
def _table(t):
    t = t.drop(columns=[c for c in t.columns if t[c].dtype == object], errors="ignore") if isinstance(t, pd.DataFrame) else t
    return np.asarray(t, float)


@op("performance report", scen=True)
def _(W):
    pv = lib()
    from pyvallocation.utils import functions as fn
    w = W.vec(W.d["w0"])
    R = W.scen(W.d["R"])
    k = dict(rtol=1e-9, atol=1e-12)
    wl = w.iloc[::-1] if W.labelled and W.d["bkind"] else w                                  # weights labelled in another order
    conf = W.d["conf"]
    R_pos = W.scen(W.d["R"]) if W.shuffle_at is None else W.d["R"]
    out = {"report": ("inv", pv.performance_report(wl, R, probabilities=W.p(), confidence=conf), k),
           "cvar": ("inv", fn.portfolio_cvar(W.d["w0"][W.perm], R_pos, W.p(), confidence=conf), k), "var": ("inv", fn.portfolio_var(W.d["w0"][W.perm], R_pos, W.p(), confidence=conf), k),
           "pnl": ("scen", pv.scenario_pnl(wl, R), k)}
    return out


@op("stress tables", scen=True)
def _(W):
    pv = lib()
    X = W.d["X"][:, :2]
    w = W.rows(X, ["A", "B"])
    if W.labelled and W.d["bkind"]:
        w = w.iloc[::-1]
    R, p, k = W.scen(W.d["R"]), W.p(), dict(rtol=1e-8, atol=1e-11)
    conf = W.d["conf"]
    shift = np.asarray(W.d["mu"])[W.perm] / 50
    M = np.asarray(W.d["S2"])[np.ix_(W.perm, W.perm)] * 3
    q = W.p(W.d["p2"])
    return {"plain": ("inv", _table(pv.stress_test(w, R, probabilities=p, stressed_probabilities=q, confidence=conf)), k),
            "map": ("inv", _table(pv.stress_test(w, R, probabilities=p, transform=pv.linear_map(mean_shift=shift, scale=1.3, matrix=M), confidence=conf)), k),
            "kernel": ("inv", _table(pv.kernel_focus_stress(w, R, focus_series=W.d["R"][W.sperm, 0], target=float(W.d["R"][:, 0].mean()), probabilities=p, confidence=conf)), dict(rtol=1e-6, atol=1e-9)),
            "pooled": ("inv", _table(pv.entropy_pooling_stress(w, R, posterior_probabilities=q, probabilities=p, confidence=conf)), k)}


@op("path reports")
def _(W):
    pv = lib()
    w = W.vec(W.d["w0"])
    R = W.scen(W.d["R"], ordered=True)
    k = dict(rtol=1e-8, atol=1e-11)
    kw = dict(p=W.d["p"], reprice=pv.reprice_exp if W.d["bkind"] else None, seed=4)
    return {"horizons": ("inv", _table(pv.horizon_report(w, R, horizons=(1, 4), n_simulations=40, **kw)), k), "drawdown": ("inv", _table(pv.drawdown_quantile(w, R, 4, n_paths=30, **kw)), k),
            "decay": ("inv", _table(pv.exp_decay_stress(w, R, probabilities=W.d["p"], half_life=4)), k)}


@op("simulation")
def _(W):
    pv = lib()
    R = W.scen(W.d["R"], ordered=True)
    kw = dict(p=W.d["p"], seed=3, reprice=pv.reprice_exp if W.d["bkind"] else None)
    a, b = pv.project_scenarios(R, investment_horizon=3, n_simulations=25, **kw), pv.simulate_paths(R, horizon=3, n_paths=20, **kw)
    if W.labelled and isinstance(a, pd.DataFrame):
        W._labels(a.columns, "projected scenarios")
    k = dict(rtol=1e-11, atol=1e-14)
    return {"projected": ("cols", a, k), "paths": ("cols", np.asarray(b), k)}


@op("invariant stress")
def _(W):
    """The repricing map is keyed by label, so the order of the invariants does not matter."""
    pv = lib()
    d = W.d
    X = W.frame(d["R"], ordered=True)
    lab = d["lab"]
    rp = {"x": ([lab[0]], pv.reprice_exp), "y": ([lab[-1], lab[0]], lambda z: z[:, 0] - 0.5 * np.expm1(z[:, 1]))}
    views = {lab[0]: ("<=", float(d["R"][:, 0].mean() - 0.1 * d["R"][:, 0].std()))} if d["bkind"] else None
    t = pv.stress_invariants(X, np.array([0.6, 0.4]), rp, stress_views=views, horizon=2, n_simulations=60, seed=5)
    return {"table": ("inv", _table(t), dict(rtol=2e-3, atol=2e-5) if views is None else dict(rtol=0.02, atol=2e-3, few=True))}


@op("wrapper from invariants")
def _(W):
    pv = lib()
    d = W.d
    wr = pv.PortfolioWrapper.from_invariants(W.frame(d["R"], ordered=True), horizon=3, n_simulations=40, p=d["p"], reprice=pv.reprice_exp, seed=6)
    dist = wr.dist
    W._labels(dist.asset_names, "from_invariants")
    return {"scenarios": ("cols", np.asarray(dist.scenarios), dict(rtol=1e-10, atol=1e-13))}


@op("wrapper from prices")
def _(W):
    pv = lib()
    P = W.frame(W.d["P"], ordered=True)
    wr = pv.PortfolioWrapper.from_prices(P if W.labelled else P.to_numpy())
    if W.labelled:
        W._labels(wr.dist.asset_names, "from_prices")
    return {"mu": ("vec~", wr.dist.mu, dict(rtol=1e-9, scale=True)), "cov": ("mat~", wr.dist.cov, dict(rtol=1e-9, scale=True))}


# ------------------------------------------------------------------ execution
def _data(case):
    n, T = case.choice([2, 3, 3, 4, 4, 5]) if not case.chance(0.04) else case.int(6, 14), case.choice([18, 25, 32])
    lab = names(case, n)
    R = 0.03 * (case.normal(T, n) + 0.5 * case.normal(T, 1)) * case.uniform(0.6, 1.6, n) + case.uniform(-0.005, 0.015, n)
    R = np.clip(R + 1e-3 * np.sin(1 + np.outer(np.arange(T), 1 + np.arange(n))), -0.5, 0.5)
    mu, S = moments(case, n, hetero=False)
    _, S2 = moments(case, n, hetero=False)
    spec, w0 = constraint_spec(case, n)
    mw = np.abs(w0) + 0.01                          # market weights are long
    p = probs(case, T, zeros=False)
    p2 = probs(case, T, zeros=False)
    d = dict(n=n, T=T, lab=lab, R=R, mu=mu + 1e-4 * np.arange(n), S=S, S2=S2, spec=spec, w0=w0, mw=mw, p=p, p2=p2, u=case.float(0, 1), alpha=case.choice([0.1, 0.25]), conf=case.choice([0.8, 0.9, 0.95]),
             costs=case.chance(0.3), impact=case.uniform(0.01, 0.2, n), prop=case.uniform(0, 0.01, n), budgets=simplex_point(case, n, 0.3), bkind=case.int(0, 3), mult=case.choice([1.2, 1.5]), k3=case.int(0, 2), vorder=case.bool(),
             mean_est=case.choice(MEANS if n > 2 else ["sample", "huber"]), cov_est=case.choice(COVS), lw=case.choice(["identity", "constant_correlation"]), seq=case.bool(), order=[int(i) for i in case.perm(n)], vkinds=[k for k in ("mean", "vol", "rank", "corr") if case.chance(0.5)] or ["mean"],
             X=np.column_stack([simplex_point(case, n) for _ in range(5)]), weights5=case.uniform(0.1, 1.0, 5), cols=[int(i) for i in case.perm(5)],
             prices=np.round(np.exp(case.uniform(np.log(5), np.log(300), n)), 2) + 0.137 * np.arange(n), lots=[case.choice([1, 2, 5]) for _ in range(n)], lotkind=case.choice(["none", "one", "map", "series"]), cash=float(case.choice([3000.0, 10007.3, 54321.0])))
    d["wl"] = simplex_point(case, n)
    d["S_R"] = np.cov(R.T)
    d["P"] = 100 * np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)])
    return d


def _run(name, W):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", OPS[name][0](W)
        except Exception as exc:                                            # noqa: BLE001 - outcomes are compared
            return type(exc).__name__, str(exc)[:200]


def _compare(case, name, how, ref, Wr, alt, Wa):
    case.check(ref[0] == alt[0], f"{name}: base gives {ref[0]} ({str(ref[1])[:120]}), {how} gives {alt[0]} ({str(alt[1])[:120]})")
    for W, h in ((Wr, "base"), (Wa, how)):
        case.check(not W.problems, f"{name}, {h}: {'; '.join(W.problems)}")
    if ref[0] != "ok":
        return
    for k in ref[1]:
        case.check(k in alt[1], f"{name}, {how}: lacks {k}")
        kind, val, o = ref[1][k]
        kind2, val2, _ = alt[1][k]
        W1, W2 = Wr, Wa
        a, b = W1.back(kind, val, k), W2.back(kind2, val2, k)
        for W, h in ((Wr, "base"), (Wa, how)):
            case.check(not W.problems, f"{name}, {h}: {'; '.join(W.problems)}")
        if o.get("skip"):
            continue
        case.check(a.shape == b.shape, f"{name}, {how}: {k} has shape {b.shape}, base {a.shape}")
        if "metric" in o:
            D = (b - a).reshape(a.shape[0], -1)
            dist = np.sqrt(np.max(np.einsum("ik,ij,jk->k", D, o["metric"], D), initial=0.0))
            lim = 0.02 * np.sqrt(np.mean(np.diag(o["metric"])))
            case.check(dist <= lim, f"{name}, {how}: {k} differ by {dist:.3g} in risk distance", base=a, other=b)
        else:
            rtol, atol = o.get("rtol", 1e-9), o.get("atol", 1e-12)
            if o.get("scale"):
                atol = max(atol, rtol * float(np.max(np.abs(a), initial=0)))
            case.close(b, a, f"{name}, {how}: {k}", rtol=rtol, atol=atol)


@facet("C35", quick=3000, rule="one drawn operation (35+ across optimisers, estimators, views, ensembles, shares, reports) on base data and on the same data with assets reordered, as arrays or labelled: outcomes follow the assets and carry their labels; non-trivial = succeeds and the order really differs")
def assets_reordered(case):
    d = _data(case)
    name = case.choice(sorted(OPS))
    perm = [int(i) for i in case.perm(d["n"])]
    if perm == list(range(d["n"])):
        perm = perm[::-1]
    l1, l2 = case.bool(), case.bool()
    case.note(op=name, perm=perm, base_labelled=l1, other_labelled=l2, **{k: d[k] for k in ("n", "T", "lab", "mu", "S", "spec", "u", "w0")})
    ident = list(range(d["T"]))
    A, B = World(d, range(d["n"]), ident, l1), World(d, perm, ident, l2)
    ra, rb = _run(name, A), _run(name, B)
    _compare(case, name, f"reordered {'labelled' if l2 else 'array'}", ra, A, rb, B)
    case.event(name)
    case.event("errors alike", ra[0] != "ok")
    case.nontrivial(ra[0] == "ok")


@facet("C35", quick=1200, rule="one drawn operation on the same assets as arrays and as labelled data, same order: equal values, labels on the labelled outputs; non-trivial = succeeds")
def labels_change_nothing(case):
    d = _data(case)
    name = case.choice(sorted(OPS))
    case.note(op=name, **{k: d[k] for k in ("n", "T", "lab", "mu", "S", "spec", "u", "w0")})
    ident = list(range(d["T"]))
    A, B = World(d, range(d["n"]), ident, False), World(d, range(d["n"]), ident, True)
    ra, rb = _run(name, A), _run(name, B)
    _compare(case, name, "labelled", ra, A, rb, B)
    case.event(name)
    case.nontrivial(ra[0] == "ok")


@facet("C35", quick=1600, rule="operations whose meaning does not depend on time order, on reordered scenarios with their probabilities: equal results, scenario-wise outputs reordered alike; non-trivial = succeeds")
def scenarios_reordered(case):
    d = _data(case)
    name = case.choice(sorted(k for k, v in OPS.items() if v[1]))
    sp = [int(i) for i in case.perm(d["T"])]
    perm = [int(i) for i in case.perm(d["n"])] if case.chance(0.3) else list(range(d["n"]))
    l1 = case.bool()
    case.note(op=name, sperm=sp, perm=perm, labelled=l1, **{k: d[k] for k in ("n", "T", "lab", "R", "p", "spec", "u", "w0")})
    A, B = World(d, range(d["n"]), range(d["T"]), l1), World(d, perm, sp, l1)
    ra, rb = _run(name, A), _run(name, B)
    _compare(case, name, "scenarios reordered", ra, A, rb, B)
    case.event(name)
    case.nontrivial(ra[0] == "ok")


@op("variance of portfolios")
def _(W):
    S = W.mat(W.d["S"])
    return {"var": ("inv", lib().portfolio_variance(W.rows(W.d["X"]), S), dict(rtol=1e-10, atol=1e-14))}


@op("volatility of a portfolio")
def _(W):
    S = W.mat(W.d["S"])
    return {"vol": ("inv", lib().portfolio_volatility(W.vec(W.d["w0"]), S), dict(rtol=1e-7, atol=1e-9))}


@op("james-stein mean")
def _(W):
    tgt = W.vec(W.d["w0"]) if W.d["bkind"] else "grand_mean"
    return {"js": ("vec", lib().shrink_mean_james_stein(W.vec(W.d["mu"]), W.mat(W.d["S"]), W.T, target=tgt), dict(rtol=1e-8, scale=True))}


@op("jorion mean")
def _(W):
    mu, S = W.vec(W.d["mu"]), W.mat(W.d["S"])
    if W.n <= 2:                                                                            # the estimator needs three assets
        return {"js": ("vec", lib().shrink_mean_james_stein(mu, S, W.T), dict(rtol=1e-8, scale=True))}
    return {"jorion": ("vec", lib().shrink_mean_jorion(mu, S, W.T), dict(rtol=1e-7, scale=True))}


@op("tyler covariance with a target")
def _(W):
    return {"tyler": ("mat", lib().robust_covariance_tyler(W.scen(W.d["R"], ordered=True), shrinkage=0.2, target=W.mat(W.d["S2"])), dict(rtol=1e-5, scale=True))}


@op("ledoit-wolf of a given covariance")
def _(W):
    return {"lw": ("mat", lib().shrink_covariance_ledoit_wolf(W.scen(W.d["R"], ordered=True), W.mat(W.d["S_R"]), target=W.d["lw"]), dict(rtol=1e-8, scale=True))}


MIXED = ["variance of portfolios", "volatility of a portfolio", "james-stein mean", "jorion mean", "tyler covariance with a target", "ledoit-wolf of a given covariance", "minimum variance at a return", "variance frontier", "robust frontier", "robust budget", "risk parity", "pairwise shrinkage", "projection of moments", "niw update", "black-litterman", "performance report", "moments from both"]


@op("moments from both")
def _(W):
    """Estimators that take a scenario table and a table of the same assets."""
    pv = lib()
    S = W.mat(np.cov(W.d["R"].T, bias=True))
    return {"lw": ("mat", pv.shrink_covariance_ledoit_wolf(W.scen(W.d["R"], ordered=True), S, target=W.d["lw"]), dict(rtol=1e-8, scale=True)),
            "wrapper": ("mat~", _square(W, pv.PortfolioWrapper(pv.AssetsDistribution(mu=W.vec(W.d["mu"]), cov=W.mat(W.d["S"])))), dict(rtol=1e-9, scale=True))}


def _square(W, wr):
    return pd.DataFrame(wr.dist.cov, index=wr.dist.asset_names, columns=wr.dist.asset_names) if wr.dist.asset_names else wr.dist.cov


@facet("C35", quick=800, rule="labelled inputs of one call that list the same assets in different orders: refused with ValueError, or the result is the one by label; non-trivial = not refused or refused for a genuinely different order")
def mixed_orders(case):
    d = _data(case)
    name = case.choice(MIXED)
    d["spec"], d["costs"] = {}, d["costs"] and name == "minimum variance at a return"
    order = [int(i) for i in case.perm(d["n"])]
    if order == list(range(d["n"])):
        order = order[::-1]
    ident = list(range(d["T"]))
    A, B = World(d, range(d["n"]), ident, True), World(d, range(d["n"]), ident, True)
    ra = _run(name, A)
    k = case.int(1, max(A.count, 1))
    B.shuffle_at, B.order2, B.cov_axes = k, order, case.choice(["01", "01", "0", "1"])
    case.note(op=name, order=order, which_input=k, axes=B.cov_axes, **{q: d[q] for q in ("n", "lab", "mu", "S", "S2", "w0")})
    rb = _run(name, B)
    case.event("input reached", B.count >= k)
    case.event(f"{name}: {'refused' if rb[0] in ('ValueError', 'KeyError') else 'matched'}", B.count >= k)
    case.nontrivial(B.count >= k)
    if rb[0] in ("ValueError", "KeyError"):
        return
    _compare(case, name, f"input {k} in the order {order}", ra, A, rb, B)


# documented for arrays: labels are matched where they agree and ignored where they name other assets
POSITIONAL = ["variance of portfolios", "volatility of a portfolio", "projection of moments"]
# later labelled inputs of these operations are a positional measure or an optional overlay
STRICT_INPUTS = {"pairwise shrinkage": 4, "performance report": 2, "robust frontier": 2}


@facet("C35", quick=600, rule="one labelled input of a call names an asset the other inputs do not have: refused; non-trivial = the call was valid before the renaming")
def labels_of_other_assets(case):
    d = _data(case)
    name = case.choice([m for m in MIXED if m not in POSITIONAL])
    d["spec"], d["costs"] = {}, case.bool() and name == "minimum variance at a return"
    ident = list(range(d["T"]))
    A, B = World(d, range(d["n"]), ident, True), World(d, range(d["n"]), ident, True)
    ra = _run(name, A)
    if A.count < 2:
        return case.event(f"{name}: one input only")
    B.shuffle_at, B.rename = case.int(1, min(A.count, STRICT_INPUTS.get(name, 99))), case.int(0, d["n"] - 1)
    case.note(op=name, which_input=B.shuffle_at, renamed=B.rename, **{q: d[q] for q in ("n", "lab", "mu", "S", "w0")})
    rb = _run(name, B)
    case.event(f"{name} input {B.shuffle_at}: {rb[0]}")
    case.check(ra[0] != "ok" or rb[0] in ("ValueError", "KeyError"), f"{name}: input {B.shuffle_at} names an asset the others lack and is used by position")
    case.nontrivial(ra[0] == "ok")
