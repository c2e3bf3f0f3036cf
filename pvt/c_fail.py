"""C10: infeasible or malformed requests must fail."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, Poly, names, scenarios, probs
from .c_mv import lib, _problem
from .c_robust import norm


def _infeasible_spec(case, n, spec, poly):
    """Make a feasible specification infeasible by a clear margin."""
    gap = case.choice([1e-3, 0.02, 0.3])
    kind = case.choice(["caps", "floors", "group", "relative", "row", "budgets", "eqrow"])
    one = np.ones(n)
    s = dict(spec)
    tw = s.get("total_weight", 1.0)
    if kind == "caps":
        s["bounds"] = (None, (tw - gap) / n)
        if tw - gap < 0:
            kind = "budgets"
    elif kind == "floors":
        s["bounds"] = ((tw + gap) / n, None)
    elif kind == "group":
        hi = -poly.lp(-np.eye(n)[0]).fun
        s["group_constraints"] = dict(s.get("group_constraints") or {}, forced=([0], hi + gap, hi + gap + 1.0))
    elif kind == "relative":
        lo = poly.lp(np.eye(n)[0] - np.eye(n)[n - 1]).fun
        s["relative_bounds"] = list(s.get("relative_bounds") or []) + [(0, n - 1, float(lo - gap))]
    elif kind == "row":
        r = np.round(case.unit(n), 2) + 0.0
        r[0] += 0.5
        lo = poly.lp(r).fun
        s["additional_G_h"] = list(s.get("additional_G_h") or []) + [(r, float(lo - gap))]
    elif kind == "eqrow":
        e = np.eye(n)[n - 1]
        hi = -poly.lp(-e).fun
        s["additional_A_b"] = list(s.get("additional_A_b") or []) + [(e, float(hi + gap))]
    if kind == "budgets":
        s["additional_A_b"] = list(s.get("additional_A_b") or []) + [(one, float(tw + gap))]
    return s, kind, gap


@facet("C10", quick=1300, rule="a feasible problem made infeasible by a drawn contradiction and margin; every optimiser must raise; the wrapper still answers a feasible request afterwards")
def infeasible_constraints_raise(case):
    pv = lib()
    n = case.size(2, 5)
    mu, S = moments(case, n, hetero=False)
    spec, wi = constraint_spec(case, n)
    poly = Poly.from_spec(n, spec)
    bad, kind, gap = _infeasible_spec(case, n, spec, poly)
    bp = Poly.from_spec(n, bad)
    if bp.lp(np.zeros(n)).status != 2:
        case.reject()
    model = case.choice(["mv", "mvt", "cvar", "cvart", "lambda", "gamma", "rrp", "rrpf", "sharpe"])
    case.note(mu=mu, cov=S, spec=bad, kind=kind, model=model)
    case.event(kind)
    case.event(model)
    T = 12
    R = mu + case.normal(T, n) * np.sqrt(np.diag(S))
    d = pv.AssetsDistribution(scenarios=R, mu=mu, cov=S)
    t = float(mu.min() - 0.3)
    ctor = case.bool()

    def run(w, kw):
        if model == "mv":
            return w.variance_frontier(num_portfolios=case_num, **kw)
        if model == "mvt":
            return w.min_variance_at_return(t, **kw)
        if model == "cvar":
            return w.cvar_frontier(num_portfolios=case_num, **kw)
        if model == "cvart":
            return w.min_cvar_at_return(t, **kw)
        if model == "lambda":
            return w.robust_lambda_frontier(num_portfolios=case_num, **kw)
        if model == "gamma":
            return w.solve_robust_gamma_portfolio(0.5, 10.0, **kw)
        if model == "rrp":
            return w.relaxed_risk_parity_portfolio(**kw)
        if model == "rrpf":
            return w.relaxed_risk_parity_frontier(num_portfolios=case_num, **kw)
        c = kw.get("constraints", spec if w is good else bad)
        G, h, A, b = pv.Constraints.from_dict(dict(c)).to_matrices(n)
        return pv.MeanVariance(mu, S, G, h, A, b).max_sharpe(float(mu.min() - 1.0))
    case_num = case.int(1, 3)
    good = pv.PortfolioWrapper(d, constraints=dict(spec))
    if ctor:
        case.raises(lambda: run(pv.PortfolioWrapper(d, constraints=dict(bad)), {}), f"{model}: infeasible constraints ({kind})")
    else:
        case.raises(lambda: run(good, dict(constraints=dict(bad))), f"{model}: infeasible constraints ({kind})")
    if model in ("mv", "mvt", "cvar", "cvart", "lambda"):
        run(good, {})                   # must still work


@facet("C10", quick=900, rule="return target, cap or rate beyond what the feasible set attains by a drawn margin")
def unattainable_targets_raise(case):
    pv = lib()
    from pyvallocation.optimization import InfeasibleOptimizationError
    n, mu, S, spec, wi, poly = _problem(case)
    T = 12
    R = mu + case.normal(T, n) * np.sqrt(np.diag(S))
    p = probs(case, T)
    model = case.choice(["mv", "cvar", "gamma", "sharpe", "at_risk", "at_return"])
    gap = case.choice([1e-4, 1e-3, 0.02, 1.0, 50.0])
    case.note(mu=mu, cov=S, spec=spec, model=model, gap=gap)
    case.event(model)
    E = InfeasibleOptimizationError
    if model == "mv":
        t = float(-poly.lp(-mu).fun + gap)
        w = pv.PortfolioWrapper.from_moments(mu, S, constraints=dict(spec))
        case.raises(lambda: w.min_variance_at_return(t), f"target {t} above the attainable maximum", E)
    elif model == "cvar":
        m = p @ R
        t = float(-poly.lp(-m).fun + gap)
        w = pv.PortfolioWrapper.from_scenarios(R, probabilities=p, constraints=dict(spec))
        case.raises(lambda: w.min_cvar_at_return(t, alpha=0.2), f"target {t} above the attainable maximum", E)
    elif model == "gamma":
        # lower bound on the attainable norm: 1'w = total fixes it from below by Cauchy-Schwarz
        tot = float(poly.b[0])
        one = np.ones(n)
        lb = abs(tot) / np.sqrt(one @ np.linalg.solve(S, one))
        if lb < 1e-6:                               # holding nothing is admissible: every cap is met
            case.nontrivial(False)
            return
        cap = max(lb - min(gap, 0.5 * lb), 0.0) ** 2
        w = pv.PortfolioWrapper.from_moments(mu, S, constraints=dict(spec))
        case.raises(lambda: w.solve_robust_gamma_portfolio(case.choice([0.0, 0.5]), cap), f"uncertainty cap {cap:.6g} below the attainable {lb ** 2:.6g}")
    elif model == "sharpe":
        spec.pop("total_weight", None)
        spec.pop("additional_A_b", None)
        if abs(poly.b[0] - 1.0) > 1e-12:
            case.reject()
        pl = Poly.from_spec(n, spec)
        rf = float(-pl.lp(-mu).fun + gap)
        G, h, A, b = pv.Constraints.from_dict(dict(spec)).to_matrices(n)
        case.raises(lambda: pv.MeanVariance(mu, S, G, h, A, b).max_sharpe(rf), "risk-free rate above every attainable return", E)
    else:
        w = pv.PortfolioWrapper.from_moments(mu, S, constraints=dict(spec))
        fr = w.variance_frontier(num_portfolios=case.int(1, 4))
        if model == "at_risk":
            x = float(fr.risks.min() - min(gap, 1.0))
            case.raises(lambda: fr.at_risk(x), "risk limit below every column", E)
        else:
            x = float(fr.returns.max() + gap)
            case.raises(lambda: fr.at_return(x), "return floor above every column", E)


@facet("C10", quick=2500, rule="one malformed argument of a drawn kind and value; must raise")
def malformed_requests_rejected(case):
    pv = lib()
    n = case.size(2, 4)
    mu, S = moments(case, n, hetero=False)
    T = 10
    R = mu + case.normal(T, n) * np.sqrt(np.diag(S))
    nan, inf = float("nan"), float("inf")
    bad = case.choice([nan, inf, -inf])
    neg = -case.logfloat(1e-6, 10)
    k = case.int(0, n - 1)
    r = case.int(0, T - 1)
    w = pv.PortfolioWrapper.from_moments(mu, S)
    ws = pv.PortfolioWrapper.from_scenarios(R)
    fr = pv.PortfolioFrontier(weights=np.eye(n), returns=np.linspace(0, 1, n), risks=np.linspace(0.1, 1, n), risk_measure="Volatility")
    lab = names(case, n)
    as_df = case.bool()

    def arr(x, v):
        x = np.array(x, float)
        x.flat[case.int(0, x.size - 1)] = v
        return x

    def frame(x):
        return pd.DataFrame(x, columns=lab) if as_df else x
    px = 100 * np.exp(np.cumsum(case.normal(T, n) * 0.02, axis=0))
    TC = pv.TransactionCosts
    h = np.full(n, 1.0 / n)
    length = case.choice([0, 1, n - 1, n + 1])
    length = n + 2 if length == n else length
    probs_bad = {"neg": arr(np.ones(T), neg), "nan": arr(np.ones(T), nan), "inf": arr(np.ones(T), inf), "zero": np.zeros(T),
                 "short": np.ones(T - 1), "long": np.ones(T + 1)}
    pk = case.choice(sorted(probs_bad))
    qm = case.choice([nan, inf, -inf])
    ops = {
        "mv target": lambda: w.min_variance_at_return(bad),
        "cvar target": lambda: ws.min_cvar_at_return(bad),
        "alpha low": lambda: ws.min_cvar_at_return(-1.0, alpha=case.choice([0.0, neg, nan])),
        "alpha high": lambda: ws.cvar_frontier(num_portfolios=2, alpha=case.choice([1.0, 1.5, 5.0, inf])),
        "lambda negative": lambda: w.robust_lambda_frontier(lambdas=[0.5, neg]),
        "lambda nan": lambda: w.robust_lambda_frontier(lambdas=[nan]),
        "lambda empty": lambda: w.robust_lambda_frontier(lambdas=[]),
        "max lambda": lambda: w.robust_lambda_frontier(num_portfolios=2, max_lambda=case.choice([neg, nan, inf])),
        "robust count": lambda: w.robust_lambda_frontier(num_portfolios=case.choice([0, -1])),
        "gamma mu": lambda: w.solve_robust_gamma_portfolio(case.choice([neg, nan, inf]), 1.0),
        "gamma sigma": lambda: w.solve_robust_gamma_portfolio(0.5, case.choice([neg, nan])),
        "lambda class": lambda: pv.RobustOptimizer(mu, S, *pv.Constraints().to_matrices(n)).solve_lambda_variant(neg),
        "rrp lambda": lambda: w.relaxed_risk_parity_portfolio(lambda_reg=case.choice([neg, nan, inf])),
        "rrp lambda frontier": lambda: w.relaxed_risk_parity_frontier(num_portfolios=2, lambda_reg=case.choice([neg, nan])),
        "rrp multiplier": lambda: w.relaxed_risk_parity_portfolio(target_multiplier=case.choice([neg, nan])),
        "rrp multipliers": lambda: w.relaxed_risk_parity_frontier(target_multipliers=[1.0, neg]),
        "rrp target": lambda: w.relaxed_risk_parity_portfolio(return_target=bad),
        "budget length": lambda: w.relaxed_risk_parity_portfolio(risk_budgets=np.full(length, 0.5)),
        "budget sign": lambda: w.relaxed_risk_parity_portfolio(risk_budgets=arr(h, case.choice([neg, 0.0, nan]))),
        "cost length": lambda: w.variance_frontier(2, costs=TC(h, np.ones(length))),
        "holdings length": lambda: w.variance_frontier(2, costs=TC(np.ones(length), np.ones(n))),
        "cost length ctor": lambda: pv.PortfolioWrapper.from_moments(mu, S, costs=TC(h, proportional_costs=np.ones(length))),
        "holdings length ctor": lambda: pv.PortfolioWrapper.from_scenarios(R, costs=TC(np.ones(length), proportional_costs=np.ones(n))),
        "cost length cvar": lambda: ws.cvar_frontier(2, costs=TC(h, proportional_costs=np.ones(length))),
        "cost sign": lambda: w.variance_frontier(2, costs=TC(h, arr(np.ones(n), case.choice([neg, nan, inf])))),
        "cost sign cvar": lambda: ws.min_cvar_at_return(-5.0, costs=TC(h, proportional_costs=arr(np.ones(n), case.choice([neg, nan, inf])))),
        "cost sign ctor": lambda: pv.PortfolioWrapper.from_moments(mu, S, costs=TC(h, proportional_costs=arr(np.ones(n), neg))),
        "holdings nan": lambda: w.variance_frontier(2, costs=TC(arr(h, bad), np.ones(n))),
        "label min": lambda: fr.min_risk(risk_label="CVaR"),
        "label at_risk": lambda: fr.at_risk(0.5, risk_label="volatility"),
        "label at_return": lambda: fr.at_return(0.0, risk_label=""),
        "label closest": lambda: fr.closest_risk(0.5, risk_label="x"),
        "selector closest nan": lambda: fr.closest_risk(qm),
        "selector tangency nan": lambda: fr.tangency(qm),
        "selector percentile nan": lambda: fr.at_percentile(qm),
        "selector at_risk nan": lambda: fr.at_risk(case.choice([nan, -inf])),
        "selector at_return nan": lambda: fr.at_return(case.choice([nan, inf])),
        "probabilities " + pk: lambda: pv.PortfolioWrapper.from_scenarios(frame(R), probabilities=probs_bad[pk]),
        "scenario value": lambda: pv.PortfolioWrapper.from_scenarios(frame(arr(R, bad))),
        "scenario dim": lambda: pv.PortfolioWrapper.from_scenarios(R[:, 0]),
        "mu value": lambda: pv.PortfolioWrapper.from_moments(arr(mu, bad), S),
        "cov value": lambda: pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu, cov=arr(S, bad))),
        "cov value from_moments": lambda: pv.PortfolioWrapper.from_moments(mu, arr(S, bad)),
        "mu length": lambda: pv.PortfolioWrapper.from_moments(np.ones(n + 1), S),
        "cov shape": lambda: pv.PortfolioWrapper.from_moments(mu, S[:, :-1]),
        "nothing": lambda: pv.AssetsDistribution(),
        "names": lambda: pv.AssetsDistribution(mu=pd.Series(mu, index=lab), cov=pd.DataFrame(S, index=lab[::-1], columns=lab[::-1])),
        "names columns": lambda: pv.AssetsDistribution(mu=pd.Series(mu, index=lab), cov=pd.DataFrame(S, index=lab, columns=lab[::-1])),
        "names length": lambda: pv.AssetsDistribution(mu=mu, cov=S, asset_names=lab[:-1]),
        "price value": lambda: pv.PortfolioWrapper.from_prices(frame(arr(px, case.choice([nan, inf, 0.0, neg])))),
        "price rows": lambda: pv.PortfolioWrapper.from_prices(frame(px[:1])),
        "return type": lambda: pv.PortfolioWrapper.from_moments(mu, S, return_type=case.choice(["Simple", "LOG", "", "arith"])),
        "return type scenarios": lambda: pv.PortfolioWrapper.from_scenarios(R, return_type=case.choice(["Simple", "geometric", ""])),
        "sharpe rate": lambda: pv.MeanVariance(mu, S, *pv.Constraints().to_matrices(n)).max_sharpe(bad),
        "no moments": lambda: pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu)).variance_frontier(2),
        "horizon": lambda: pv.PortfolioWrapper.from_invariants(R, horizon=case.choice([0, -1]), n_simulations=5),
        "simulations": lambda: pv.PortfolioWrapper.from_invariants(R, horizon=1, n_simulations=case.choice([0, -3])),
    }
    key = case.choice(sorted(ops))
    case.note(kind=key, n=n, value=bad, negative=neg)
    case.event(key)
    case.raises(ops[key], f"malformed request ({key})")
    # and the valid counterpart works
    w.variance_frontier(2)
    case.nontrivial(True)
