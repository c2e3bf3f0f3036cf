"""C34: every entry point builds the same portfolio problem."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, constraint_spec, Poly, names, scenarios, probs
from .c_mv import lib
from .c_cost import _coeffs, _holdings


def same_dist(case, a, b, msg, exact=True):
    """Two distributions describe the same problem."""
    tol = dict(rtol=0, atol=0) if exact else dict(rtol=1e-9, atol=1e-13)
    for f in ("mu", "cov", "scenarios", "probabilities"):
        x, y = getattr(a, f), getattr(b, f)
        case.check((x is None) == (y is None), f"{msg}: {f} present in one problem only")
        if x is not None:
            case.close(x, y, f"{msg}: {f}", **tol)
    case.check(a.asset_names == b.asset_names, f"{msg}: labels {a.asset_names} != {b.asset_names}")
    case.check((a.N, a.T) == (b.N, b.T), f"{msg}: sizes {(a.N, a.T)} != {(b.N, b.T)}")


def same_problem(case, wa, wb, msg, exact=True):
    same_dist(case, wa.dist, wb.dist, msg, exact)
    for f in ("G", "h", "A", "b", "initial_weights", "market_impact_costs", "proportional_costs"):
        x, y = getattr(wa, f), getattr(wb, f)
        case.check((x is None) == (y is None), f"{msg}: {f} set in one problem only")
        if x is not None:
            case.close(x, y, f"{msg}: {f}", rtol=0, atol=0)


METHODS = ["var frontier", "var target", "cvar frontier", "cvar target", "robust frontier", "gamma", "rrp", "rrp frontier"]


def probe(w, method, target, **kw):
    """Run one optimiser; returns (kind, weights, returns, risks) as arrays, or the error type."""
    pv = lib()

    def fr(f):
        return f.weights, f.returns, f.risks, f.asset_names

    def one(t):
        return np.asarray(t[0], float), np.asarray(t[1], float), np.asarray(t[2], float), list(t[0].index)
    try:
        if method == "var frontier":
            return fr(w.variance_frontier(num_portfolios=4, **kw))
        if method == "var target":
            return one(w.min_variance_at_return(target, **kw))
        if method == "cvar frontier":
            return fr(w.cvar_frontier(num_portfolios=3, alpha=0.2, seed=3, **kw))
        if method == "cvar target":
            return one(w.min_cvar_at_return(target, alpha=0.2, seed=3, **kw))
        if method == "robust frontier":
            return fr(w.robust_lambda_frontier(num_portfolios=3, max_lambda=1.5, **kw))
        if method == "gamma":
            return one(w.solve_robust_gamma_portfolio(0.7, 10.0, **kw))
        if method == "rrp":
            return one(w.relaxed_risk_parity_portfolio(lambda_reg=0.3, **kw))
        if method == "rrp frontier":
            return fr(w.relaxed_risk_parity_frontier(num_portfolios=3, lambda_reg=0.3, **kw))
    except (pv.InfeasibleOptimizationError, RuntimeError, ValueError, ArithmeticError) as exc:
        return ("error", type(exc).__name__)


def same_result(case, x, y, msg, tol=1e-9):
    case.check(len(x) == len(y), f"{msg}: one route failed ({x if len(x) == 2 else 'ok'} / {y if len(y) == 2 else 'ok'})")
    if len(x) == 2:
        case.event("both infeasible")
        case.check(x == y, f"{msg}: different errors {x} / {y}")
        return
    for k, v in enumerate(("weights", "returns", "risks")):
        case.close(x[k], y[k], f"{msg}: {v}", rtol=tol, atol=tol)
    case.check(x[3] == y[3], f"{msg}: labels {x[3]} != {y[3]}")


def _kwargs(case, n, spec=None):
    """A wrapper keyword set of any form describing `spec`."""
    pv = lib()
    if spec is None:
        spec, _ = constraint_spec(case, n)
    simple = not set(spec) - {"long_only", "total_weight", "bounds"}
    forms = ["dict", "object"] + (["shortcut"] if simple else [])
    form = case.choice(forms)
    case.event(form)
    if form == "dict":
        return dict(constraints=dict(spec))
    if form == "object":
        return dict(constraints=pv.Constraints(**spec))
    return dict(spec)


def _target(mu, wi):
    return float(mu @ wi)


# ---------------------------------------------------------------- prices
@facet("C34", quick=700, rule="random price histories (floats, whole numbers, arrays, lists, labelled frames): the problem equals the one built from the ratios minus one, same constraints, and an optimiser returns the same; non-trivial = two or more assets and a solved portfolio")
def prices_are_their_returns(case):
    pv = lib()
    n, T = case.size(1, 5), case.size(2, 25)
    R = np.clip(0.04 * case.normal(T, n) + case.uniform(-0.01, 0.02, n), -0.6, 2.0)
    start = np.exp(case.uniform(np.log(0.05), np.log(5000), n))
    P = start * np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)])
    whole = case.chance(0.25)
    if whole:
        P = np.maximum(np.round(P * 100), 1).astype(np.int64)
    if case.chance(0.15):
        P[case.int(1, T)] = P[case.int(0, T)]
    lab = names(case, n)
    box = case.choice(["array", "frame", "dated", "list"])
    src = {"array": lambda: P.copy(), "frame": lambda: pd.DataFrame(P, columns=lab),
           "dated": lambda: pd.DataFrame(P, columns=lab, index=pd.date_range("2021-03-01", periods=T + 1, freq="B")),
           "list": lambda: P.tolist()}[box]()
    want = np.array([[float(P[t + 1, i]) / float(P[t, i]) - 1.0 for i in range(n)] for t in range(T)])
    spec, wi = constraint_spec(case, n)
    kw = _kwargs(case, n, spec)
    case.note(prices=P, container=box, spec=spec)
    a = pv.PortfolioWrapper.from_prices(src, **kw)
    lab2 = lab if box in ("frame", "dated") else None
    b = pv.PortfolioWrapper.from_scenarios(pd.DataFrame(want, columns=lab2) if lab2 else want, **_kwargs(case, n, spec))
    case.close(a.dist.scenarios, want, "price returns", rtol=1e-11, atol=1e-14)
    same_problem(case, a, b, "from prices vs from their returns", exact=False)
    m = case.choice(METHODS[:2] + METHODS[4:6])
    mu = want.mean(0)
    x, y = probe(a, m, _target(mu, wi)), probe(b, m, _target(mu, wi))
    case.note(method=m)
    case.check(len(x) == len(y), "one of the two equal problems failed", a=str(x)[:200], b=str(y)[:200])
    if len(x) == 4:
        case.close(x[2], y[2], "risk", rtol=1e-3, atol=1e-6)
        case.check(x[3] == y[3], "labels differ")
    case.nontrivial(n > 1 and len(x) == 4)


# ---------------------------------------------------------------- log inputs
@facet("C34", quick=900, rule="log-return scenarios or moments (arrays, labelled): the problem equals the one of exp(x)-1 scenarios resp. of the log-normal moments, same portfolios; non-trivial = two or more assets")
def log_inputs_are_converted(case):
    pv = lib()
    n = case.size(1, 5)
    lab = names(case, n) if case.bool() else None
    spec, wi = constraint_spec(case, n)
    if case.bool():
        T = case.size(3, 25)
        X = np.log1p(scenarios(case, T, n)[0])
        p = probs(case, T) if case.bool() else None
        wrap = (lambda M: pd.DataFrame(M, columns=lab)) if lab else (lambda M: M)
        want = np.array([[np.exp(v) - 1.0 for v in row] for row in X])
        pp = (lambda: None) if p is None else (lambda: case.choice([p, pd.Series(p), pd.Series(p, index=range(5, 5 + T)), p.tolist()]))
        case.note(X=X, p=p, spec=spec)
        a = pv.PortfolioWrapper.from_scenarios(wrap(X), probabilities=pp(), return_type="log", **_kwargs(case, n, spec))
        b = pv.PortfolioWrapper.from_scenarios(wrap(want), probabilities=pp(), return_type="simple", **_kwargs(case, n, spec))
        case.event("scenarios")
    else:
        m, S = moments(case, n)
        wrapm = (lambda v: pd.Series(v, index=lab)) if lab else (lambda v: v)
        wrapc = (lambda v: pd.DataFrame(v, index=lab, columns=lab)) if lab else (lambda v: v)
        mu_s = np.array([np.exp(m[i] + 0.5 * S[i, i]) - 1 for i in range(n)])
        cov_s = np.array([[(1 + mu_s[i]) * (1 + mu_s[j]) * np.expm1(S[i, j]) for j in range(n)] for i in range(n)])
        case.note(mu=m, cov=S, spec=spec)
        a = pv.PortfolioWrapper.from_moments(wrapm(m), wrapc(S), return_type="log", **_kwargs(case, n, spec))
        b = pv.PortfolioWrapper.from_moments(wrapm(mu_s), wrapc(cov_s), return_type="simple", **_kwargs(case, n, spec))
        case.event("moments")
    same_problem(case, a, b, "log inputs vs converted inputs", exact=False)
    case.check(a.dist.asset_names == lab, "labels kept")
    meth = case.choice(METHODS[:2] + METHODS[4:6])
    t = _target(b.dist.mu, wi)
    x, y = probe(a, meth, t), probe(b, meth, t)
    case.note(method=meth)
    case.check(len(x) == len(y), "one of the two equal problems failed", a=str(x)[:200], b=str(y)[:200])
    if len(x) == 4:
        case.close(x[2], y[2], "risk", rtol=1e-3, atol=1e-6)
    case.nontrivial(n > 1)


# ---------------------------------------------------------------- invariants
@facet("C34", quick=900, rule="invariants with horizon, probabilities, repricing (default, callable, per-instrument dictionary with multi-driver instruments) and seed: the problem equals projecting, repricing and building from scenarios; non-trivial = two or more assets, horizon above one")
def invariants_are_projected_and_repriced(case):
    pv = lib()
    k, T = case.size(1, 4), case.size(3, 20)
    h, m = case.size(1, 6, 60), case.size(4, 60)
    seed = case.int(0, 5000)
    X = 0.03 * case.normal(T, k)
    p = probs(case, T) if case.bool() else None
    lab = names(case, k)
    mode = case.choice(["default", "callable", "dict"])
    frame = mode == "dict" or case.bool()
    src = pd.DataFrame(X, columns=lab) if frame else X.copy()
    parg = (lambda: None) if p is None else (lambda: case.choice([p.copy(), pd.Series(p)]))
    base = pv.project_scenarios(X, investment_horizon=h, p=None if p is None else p.copy(), n_simulations=m, seed=seed)
    base = np.asarray(base, float).reshape(m, k)
    if mode == "dict":
        ni = case.int(1, 4)
        specs, cols, inst = {}, [], []
        for i in range(ni):
            kind = case.int(0, 2)
            if kind == 0 or k == 1:
                j = case.int(0, k - 1)
                if lab[j] in specs:
                    continue
                specs[lab[j]] = pv.reprice_exp
                cols.append(np.expm1(base[:, j])); inst.append(lab[j])
            elif kind == 1:
                j = case.int(0, k - 1)
                c = case.float(-8, 8)
                specs[f"I{i}"] = ([lab[j]], lambda d, c=c: c * d + d ** 2)
                cols.append(c * base[:, j] + base[:, j] ** 2); inst.append(f"I{i}")
            else:
                d = [int(v) for v in case.perm(k)[:2]]
                specs[f"I{i}"] = ([lab[v] for v in d], lambda z: np.exp(z[:, 0]) - 1 + 3 * z[:, 1])
                cols.append(np.exp(base[:, d[0]]) - 1 + 3 * base[:, d[1]]); inst.append(f"I{i}")
        reprice, want, want_lab = specs, np.column_stack(cols), inst
    elif mode == "callable":
        c = case.uniform(-6, 6, k)
        reprice, want, want_lab = (lambda d: np.asarray(d, float) * c), base * c, lab if frame else None
    else:
        reprice, want, want_lab = None, np.expm1(base), lab if frame else None
    n = want.shape[1]
    spec, wi = constraint_spec(case, n)
    case.note(X=X, p=p, horizon=h, n_simulations=m, seed=seed, mode=mode, spec=spec)
    a = pv.PortfolioWrapper.from_invariants(src, horizon=h, n_simulations=m, p=parg(), reprice=reprice, seed=seed, **_kwargs(case, n, spec))
    b = pv.PortfolioWrapper.from_scenarios(pd.DataFrame(want, columns=want_lab) if want_lab else want, **_kwargs(case, n, spec))
    same_problem(case, a, b, "from invariants vs projected and repriced scenarios", exact=False)
    case.close(a.dist.probabilities, np.full(m, 1 / m), "projected scenarios are equally likely", rtol=1e-12)
    case.event(mode)
    case.nontrivial(n > 1 and h > 1)


# ---------------------------------------------------------------- exposed inputs
@facet("C34", quick=1500, rule="any mix of moments, scenarios, probabilities (arrays, labelled, unnormalised) and explicit labels, by factory or distribution: exactly the given moments, scenarios, normalised probabilities and labels are exposed, absent moments are the weighted sample ones; mismatched labels or sizes are refused; non-trivial = labelled or weighted")
def inputs_are_exposed_as_given(case):
    pv = lib()
    n, T = case.size(1, 5), case.size(2, 15)
    mu, S = moments(case, n)
    R = scenarios(case, T, n)[0]
    p = probs(case, T)
    scale = case.choice([1.0, 1.0, 3.0, 1e-3])
    lab = names(case, n)
    part = case.choice(["moments", "scenarios", "both", "mu+scenarios", "cov+scenarios"])
    # consistent labels on any subset of the inputs, given explicitly or not
    L = [case.bool() for _ in range(3)]
    explicit = case.bool()
    args = {}
    if part in ("moments", "both", "mu+scenarios"):
        args["mu"] = pd.Series(mu, index=lab) if L[0] else mu.copy()
    if part in ("moments", "both", "cov+scenarios"):
        args["cov"] = pd.DataFrame(S, index=lab, columns=lab) if L[1] else S.copy()
    if part != "moments":
        args["scenarios"] = pd.DataFrame(R, columns=lab) if L[2] else R.copy()
        if case.bool():
            args["probabilities"] = case.choice([lambda: scale * p, lambda: pd.Series(scale * p), lambda: pd.Series(scale * p, index=range(T, 0, -1)), lambda: (scale * p).reshape(-1, 1)])()
    labelled = explicit or any(isinstance(v, (pd.Series, pd.DataFrame)) for k, v in args.items() if k != "probabilities")
    q = p / p.sum() if "probabilities" in args else np.full(T, 1 / T)
    case.note(part=part, mu=mu, cov=S, R=R, p=scale * p, labels=L, explicit=explicit)
    only_factory = set(args) <= {"mu", "cov"} and not explicit or set(args) <= {"scenarios", "probabilities"} and not explicit
    if only_factory and case.bool():
        case.event("factory")
        d = (pv.PortfolioWrapper.from_moments if part == "moments" else pv.PortfolioWrapper.from_scenarios)(**args).dist
    else:
        d = pv.AssetsDistribution(**args, **(dict(asset_names=list(lab)) if explicit else {}))
    wmu = np.array([sum(q[t] * R[t, i] for t in range(T)) for i in range(n)])
    wcov = np.array([[sum(q[t] * (R[t, i] - wmu[i]) * (R[t, j] - wmu[j]) for t in range(T)) for j in range(n)] for i in range(n)])
    if "mu" in args:
        case.close(d.mu, mu, "mean exposed", rtol=0, atol=0)
    else:
        case.close(d.mu, wmu, "mean of the weighted scenarios", rtol=1e-9, atol=1e-12)
    if "cov" in args:
        case.close(d.cov, S, "covariance exposed", rtol=1e-12, atol=1e-15)
    else:
        case.close(np.diag(d.cov) >= -1e-15, np.ones(n), "variances")
        # the library's sample covariance may use either divisor; the ratio to the population one is common to all entries
        case.close(d.cov, wcov, "covariance of the weighted scenarios", rtol=1e-8, atol=1e-12)
    if part != "moments":
        case.close(d.scenarios, R, "scenarios exposed", rtol=0, atol=0)
        case.close(d.probabilities, q, "probabilities normalised", rtol=1e-12, atol=1e-15)
        case.check(d.T == T, "number of scenarios")
    else:
        case.check(d.scenarios is None and d.probabilities is None and d.T is None, "moments only: no scenarios")
    case.check(d.asset_names == (list(lab) if labelled else None), f"labels {d.asset_names}")
    case.check(d.N == n, "number of assets")
    # a mismatch is refused
    if n > 1 and case.chance(0.5):
        bad = {k: v for k, v in args.items()}
        perm = list(lab)
        perm[0], perm[1] = perm[1], perm[0]
        labelled_args = [k for k in ("mu", "cov", "scenarios") if isinstance(bad.get(k), (pd.Series, pd.DataFrame))]
        if len(labelled_args) + explicit >= 2:
            k = case.choice(labelled_args)
            if k == "mu":
                bad[k] = pd.Series(mu, index=perm)
            elif k == "cov":
                bad[k] = pd.DataFrame(S, index=perm, columns=perm)
            else:
                bad[k] = pd.DataFrame(R, columns=perm)
            case.event("label mismatch")
            case.raises(lambda: pv.AssetsDistribution(**bad, **(dict(asset_names=list(lab)) if explicit else {})), f"{k} labelled in another order than the rest")
    case.nontrivial(labelled or "probabilities" in args)


# ---------------------------------------------------------------- robust posterior
@facet("C34", quick=700, rule="normal-inverse-Wishart posteriors (labelled or not) and horizon factors: mean and covariance scale with the horizon, uncertainty with its square; robust frontier and capped portfolio equal those of the explicit robust problem, returns reported in simple space; non-trivial = two or more assets")
def robust_posterior_fields(case):
    pv = lib()
    n = case.size(1, 5)
    mu, S = moments(case, n)
    h = case.choice([1.0, 1, 12, 52.0, 0.25, 2.5])
    mu, S = mu / max(h, 1), S / max(h, 1)
    lab = names(case, n) if case.bool() else None
    m2 = mu + 0.02 / max(h, 1) * case.unit(n)
    S2 = S * case.float(0.5, 2.0)
    wm = (lambda v: pd.Series(v, index=lab)) if lab else (lambda v: v)
    wc = (lambda v: pd.DataFrame(v, index=lab, columns=lab)) if lab else (lambda v: v)
    post = pv.RobustBayesPosterior.from_niw(prior_mu=wm(mu), prior_sigma=wc(S), t0=case.int(1, 80), nu0=case.int(n + 3, 90),
                                            sample_mu=wm(m2), sample_sigma=wc(S2), n_obs=case.int(5, 300))
    pm, pS, ps = (np.asarray(x, float).copy() for x in (post.mu, post.sigma, post.s_mu))
    spec, wi = constraint_spec(case, n)
    case.note(mu=pm, sigma=pS, s_mu=ps, horizon=h, spec=spec)
    kw = dict(annualization_factor=h) if h != 1 or case.bool() else {}
    w = pv.PortfolioWrapper.from_robust_posterior(post, **kw, **_kwargs(case, n, spec))
    case.close(w.dist.mu, h * pm, "mean at the horizon", rtol=1e-12, atol=1e-15)
    case.close(w.dist.cov, h * pS, "return covariance at the horizon", rtol=1e-10, atol=1e-15)
    case.check(w.dist.asset_names == lab, "labels")
    for a, b in zip((pm, pS, ps), (post.mu, post.sigma, post.s_mu)):
        case.close(b, a, "posterior untouched", rtol=0, atol=0)
    # the explicit robust problem: dist.mu = mean, dist.cov = uncertainty
    U = h * h * ps
    e = pv.PortfolioWrapper(pv.AssetsDistribution(mu=wm(h * pm), cov=wc((U + U.T) / 2)), constraints=dict(spec))
    mu_s = np.exp(h * pm + 0.5 * h * np.diag(pS)) - 1
    if case.bool():
        lam = float(case.uniform(0.0, 3.0, 1)[0])
        f, g = w.robust_lambda_frontier(lambdas=[lam]), e.robust_lambda_frontier(lambdas=[lam])
        x, y = f.weights[:, 0], g.weights[:, 0]
        case.close(f.returns[0], mu_s @ x, "frontier returns in simple space", rtol=1e-9, atol=1e-12)
        case.close(f.risks[0], np.sqrt(max(x @ U @ x, 0)), "radius of the mean uncertainty", rtol=1e-5, atol=1e-7)
        obj = lambda v: float(h * pm @ v - lam * np.sqrt(max(v @ U @ v, 0)))
        case.close(obj(x), obj(y), "worst-case mean", rtol=1e-5, atol=1e-6)
        vol = f.alternate_risks.get("Volatility")
        if vol is not None:
            case.close(vol[0], np.sqrt(x @ pS @ x * h), "volatility overlay", rtol=1e-9, atol=1e-12)
    else:
        gm = float(case.uniform(0.0, 2.0, 1)[0])
        cap = float(wi @ U @ wi) * 1.2 + 1e-8
        try:
            sol = w.solve_robust_gamma_portfolio(gm, cap)
            x = np.asarray(sol[0], float)
            y = np.asarray(e.solve_robust_gamma_portfolio(gm, cap)[0], float)
        except RuntimeError:
            case.event("capped problem not solved")
            case.nontrivial(False)
            return
        obj = lambda v: float(h * pm @ v - gm * np.sqrt(max(v @ U @ v, 0)))
        case.close(obj(x), obj(y), "capped worst-case mean", rtol=1e-4, atol=1e-6)
        case.close(sol[1], mu_s @ x, "nominal return in simple space", rtol=1e-9, atol=1e-12)
        case.close(sol[2], min(x @ U @ x, cap), "squared radius", rtol=1e-4, atol=1e-8)
    case.nontrivial(n > 1)


# ---------------------------------------------------------------- constraint forms
@facet("C34", quick=500, rule="one specification as shortcuts, object or dictionary, at construction or per call (with or without costs), over every optimiser: same portfolios, a per-call specification leaves no trace, costs given either way agree; non-trivial = solved and constraints beyond the default")
def constraint_forms_agree(case):
    pv = lib()
    n = case.size(2, 5)
    lab = names(case, n) if case.bool() else None
    spec, wi = constraint_spec(case, n)
    other, _ = constraint_spec(case, n)
    method = case.choice(METHODS)
    if method.startswith("cvar"):
        T = case.int(8, 25)
        R = scenarios(case, T, n)[0]
        d = lambda: pv.AssetsDistribution(scenarios=pd.DataFrame(R, columns=lab) if lab else R.copy())
        mu = R.mean(0)
        case.note(R=R)
    else:
        mu, S = moments(case, n)
        d = lambda: pv.AssetsDistribution(mu=pd.Series(mu, index=lab) if lab else mu.copy(), cov=pd.DataFrame(S, index=lab, columns=lab) if lab else S.copy())
        case.note(mu=mu, cov=S)
    t = _target(mu, wi)
    costs = None
    if not method.startswith("rrp") and case.chance(0.4):
        w0 = _holdings(case, n, wi)
        kind = "market_impact_costs" if method.startswith("var") else "proportional_costs"
        c = _coeffs(case, n, 1e-4, 0.05)
        costs = pv.TransactionCosts(initial_weights=w0, **{kind: c})
        case.event("costs")
        case.note(w0=w0, costs=c)
    case.note(spec=spec, other=other, method=method, target=t)
    ck = {} if costs is None else dict(costs=costs)
    ref = probe(pv.PortfolioWrapper(d(), constraints=dict(spec), **ck), method, t)
    # 1. another form at construction
    same_result(case, probe(pv.PortfolioWrapper(d(), **_kwargs(case, n, spec), **ck), method, t), ref, "form at construction")
    # 2. per call, over another instance specification, which must stay in force afterwards
    base = pv.PortfolioWrapper(d(), constraints=dict(other))
    before = probe(base, method, t)
    percall = dict(constraints=dict(spec) if case.bool() else pv.Constraints(**spec), **ck)
    same_result(case, probe(base, method, t, **percall), ref, "per-call specification")
    same_result(case, probe(base, method, t), before, "instance specification after a per-call one")
    # 3. constraints at construction, costs per call
    if costs is not None:
        mixed = pv.PortfolioWrapper(d(), constraints=dict(spec))
        same_result(case, probe(mixed, method, t, costs=costs), ref, "costs per call")
    if len(ref) == 4:
        poly = Poly.from_spec(n, spec)
        W = ref[0].reshape(n, -1)
        if not method.startswith("rrp"):
            for j in range(W.shape[1]):
                case.check(poly.violation(W[:, j]) <= 2e-5, f"column {j} breaks the specification by {poly.violation(W[:, j]):.2e}", w=W[:, j])
    case.event(method)
    case.nontrivial(len(ref) == 4 and bool(spec))


# ---------------------------------------------------------------- conversion helpers
@facet("C34", quick=1500, rule="price frames with text and date columns, chosen columns in any order, gaps: log or simple returns equal the ratios row by row, missing values filled as named, order and other columns irrelevant; weight vectors labelled one to one; non-trivial = two or more columns")
def conversion_helpers(case):
    from pyvallocation.utils import data_helpers as dh
    n, T = case.size(1, 4), case.size(2, 10)
    P = np.exp(0.1 * case.normal(T, n) + case.uniform(0, 4, n))
    lab = [f"{a}" for a in names(case, n)]
    df = pd.DataFrame(P, columns=lab)
    for i in range(n):                               # whole-number quotes are prices too
        if case.chance(0.1):
            P[:, i] = np.ceil(50 * P[:, i])
            df[lab[i]] = P[:, i].astype(case.choice(["int64", "int32", "float64"]))
    extra = case.bool()
    if extra:
        df.insert(case.int(0, n), "note", [f"t{i}" for i in range(T)])
    date = case.choice(["none", "column", "index", "text"])
    kw = {}
    if date == "column":
        df.insert(case.int(0, df.shape[1]), "when", pd.date_range("2020-01-31", periods=T, freq="D"))
        kw["date_column"] = "when"
    elif date == "text":
        df.insert(case.int(0, df.shape[1]), "when", [str(x.date()) for x in pd.date_range("2020-01-31", periods=T, freq="D")])
        kw["date_column"] = "when"
    elif date == "index":
        df.index = pd.date_range("2020-01-31", periods=T, freq="D", name="when")
        if case.bool():
            kw["date_column"] = "when"
    cols = list(range(n))
    if case.bool():
        k = case.int(1, n)
        cols = [int(i) for i in case.perm(n)[:k]]
        kw["price_columns"] = [lab[i] for i in cols]
    method = case.choice(["log", "simple", None])
    if method:
        kw["return_calculation_method"] = method
    fill = case.choice(["ffill", "bfill", "zero", "drop", None])
    if fill:
        kw["fill_na_method"] = fill
    if case.chance(0.2):                             # further index levels carry no information
        levels = [df.index, [f"k{i % 2}" for i in range(T)]] + ([list(range(T))] if case.bool() else [])
        nm = [df.index.name, "tag", "serial"][:len(levels)]
        df.index = pd.MultiIndex.from_arrays(levels, names=nm)
        if kw.get("date_column") == "when" and date == "index":
            kw.pop("date_column")
        case.event("several index levels")
    gaps = set()
    if case.chance(0.4):
        for _ in range(case.int(1, 3)):
            t, i = case.int(0, T - 1), case.int(0, n - 1)
            df[lab[i]] = df[lab[i]].astype(float)
            run = min(case.choice([1, 1, 1, 3, 20]), T - t)       # single gaps and long ones
            df.iloc[t:t + run, df.columns.get_loc(lab[i])] = np.nan
            P = P.copy()
            P[t:t + run, i] = np.nan
    before = df.copy(deep=True)
    case.note(prices=P, kw={k: str(v) for k, v in kw.items()}, date=date)
    out = dh.pandas_to_numpy_returns(df, **kw)
    pd.testing.assert_frame_equal(df, before)
    f = np.log if method != "simple" else (lambda r: r - 1.0)
    raw = np.array([[f(P[t + 1, i] / P[t, i]) for i in cols] for t in range(T - 1)]).reshape(T - 1, len(cols))
    fm = fill or "ffill"
    if fm == "drop":
        want = raw[~np.isnan(raw).any(axis=1)]
    else:
        want = raw.copy()
        for j in range(want.shape[1]):
            idx = range(T - 1) if fm == "ffill" else range(T - 2, -1, -1)
            last = np.nan
            for t in idx:
                if np.isnan(want[t, j]):
                    want[t, j] = last if fm in ("ffill", "bfill") else 0.0
                last = want[t, j]
        want = np.where(np.isnan(want), 0.0, want)
    case.check(isinstance(out, np.ndarray), "an array")
    case.close(out, want, f"{method or 'log'} returns, {fm}", rtol=1e-10, atol=1e-12)
    w = case.unit(n)
    s = dh.numpy_weights_to_pandas_series(w.copy(), list(lab))
    case.check(list(s.index) == list(lab), "labels in order")
    case.close(s.to_numpy(), w, "values", rtol=0, atol=0)
    case.raises(lambda: dh.numpy_weights_to_pandas_series(w, list(lab) + ["Z"]), "more labels than weights", ValueError)
    if case.bool():
        case.raises(lambda: dh.pandas_to_numpy_returns(df, price_columns=["nope"]), "unknown column", ValueError)
        case.raises(lambda: dh.pandas_to_numpy_returns(df, return_calculation_method="geo"), "unknown method", ValueError)
        case.raises(lambda: dh.pandas_to_numpy_returns(df, fill_na_method="mean"), "unknown filling", ValueError)
        case.raises(lambda: dh.pandas_to_numpy_returns(df, date_column="absent"), "unknown date column", ValueError)
    case.nontrivial(len(cols) > 1)


@facet("C34", quick=3, thorough=60, rule="tail risk of log-space posteriors without scenarios: the reported figure and return are those of the exponentiated normal (200 000 independent draws, eight standard errors); all cases non-trivial", min_nontrivial=0.5)
def simulated_log_posterior(case):
    pv = lib()
    n = case.int(1, 3)
    mu, S = moments(case, n, hetero=False)
    mu, S = mu / 2, S / 2
    post = pv.RobustBayesPosterior(mu=mu / 4, sigma=S / 4, s_mu=S / 400)
    w = pv.PortfolioWrapper.from_robust_posterior(post, annualization_factor=4.0, bounds=(0.0, 1.0))
    seed = case.int(0, 10 ** 6)
    case.note(mu=mu, cov=S, seed=seed)
    ws, ret, risk = w.min_cvar_at_return(-0.9, alpha=0.1, seed=seed)
    x = np.asarray(ws, float)
    case.close(ret, (np.exp(mu + 0.5 * np.diag(S)) - 1) @ x, "return in simple space", rtol=1e-9, atol=1e-12)
    z = np.random.default_rng(case.int(0, 10 ** 6)).multivariate_normal(mu, S, 200_000)
    loss = -np.expm1(z) @ x
    k = 20_000
    tail = np.sort(loss)[-k:]
    # optimised in sample: optimistic by a few standard errors at most
    se = np.sqrt(tail.var() + (tail.mean() - tail[0]) ** 2) / np.sqrt(500)
    case.check(abs(tail.mean() - risk) <= 8 * se + 1e-4, f"tail risk {risk:.4f}, exponentiated normal gives {tail.mean():.4f} +- {se:.4f}", w=x)


@facet("C34", quick=500, rule="every factory with a drawn constraint specification (total weight, short sales, bounds; as shortcuts, object or dictionary) and costs: the portfolios equal those of a wrapper built on the same distribution with that specification and respect it literally; non-trivial = solved, specification beyond the default")
def factories_pass_settings_on(case):
    pv = lib()
    n, T = case.size(2, 5), case.size(12, 30)
    lab = names(case, n) if case.bool() else None
    df = (lambda X: pd.DataFrame(X, columns=lab)) if lab else (lambda X: X)
    mu, S = moments(case, n)
    R = np.clip(scenarios(case, T, n)[0], -0.6, 2.0)
    spec, wi = constraint_spec(case, n, rich=case.chance(0.3))
    kw = _kwargs(case, n, spec)
    which = case.choice(["moments", "scenarios", "log moments", "log scenarios", "prices", "invariants", "posterior"])
    costs = None
    if which != "posterior" and case.chance(0.4):
        costs = pv.TransactionCosts(initial_weights=_holdings(case, n, wi), market_impact_costs=_coeffs(case, n, 1e-4, 0.05), proportional_costs=_coeffs(case, n, 1e-4, 0.05))
        kw["costs"] = costs
        case.event("costs")
    case.note(which=which, spec=spec, mu=mu, cov=S, R=R, costs=costs)
    F = pv.PortfolioWrapper
    M = lambda: (pd.Series(mu, index=lab), pd.DataFrame(S, index=lab, columns=lab)) if lab else (mu.copy(), S.copy())
    if which == "moments":
        w = F.from_moments(*M(), **kw)
    elif which == "log moments":
        w = F.from_moments(*M(), return_type="log", **kw)
    elif which == "scenarios":
        w = F.from_scenarios(df(R), **kw)
    elif which == "log scenarios":
        w = F.from_scenarios(df(np.log1p(R)), return_type="log", **kw)
    elif which == "prices":
        w = F.from_prices(df(50 * np.cumprod(np.vstack([np.ones(n), 1 + R]), axis=0)), **kw)
    elif which == "invariants":
        w = F.from_invariants(df(R), horizon=case.int(1, 2), n_simulations=25, seed=case.int(0, 999), **kw)
    else:
        post = pv.RobustBayesPosterior(mu=M()[0], sigma=M()[1], s_mu=M()[1] / 15)
        w = F.from_robust_posterior(post, annualization_factor=case.choice([1.0, 3.0]), **kw)
    scen = w.dist.scenarios is not None
    method = case.choice(METHODS) if which != "posterior" else case.choice(["var frontier", "var target"])
    if method.startswith("cvar") and not scen:
        method = "var frontier"
    if costs is not None and method.startswith("rrp"):
        method = "robust frontier"
    t = float(np.asarray(w.dist.mu) @ wi)
    e = F(w.dist, constraints=dict(spec), **({} if costs is None else dict(costs=costs)))
    x, y = probe(w, method, t), probe(e, method, t)
    if which == "posterior" and len(x) == 4 and len(y) == 4:       # figures are reported in simple space there
        x, y = (x[0], y[0]), (y[0], y[0])
        case.close(x[0], x[1], "posterior: weights", rtol=1e-9, atol=1e-9)
        W = x[0]
    else:
        same_result(case, x, y, which)
        W = x[0] if len(x) == 4 else None
    case.event(which)
    if W is None:
        case.nontrivial(False)
        return
    poly = Poly.from_spec(n, spec)
    if not method.startswith("rrp"):
        W = W.reshape(n, -1)
        for j in range(W.shape[1]):
            case.check(poly.violation(W[:, j]) <= 2e-5, f"{which}: column {j} breaks the specification by {poly.violation(W[:, j]):.2e}", w=W[:, j])
    case.nontrivial(bool(spec))
