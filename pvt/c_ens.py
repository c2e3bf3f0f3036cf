"""C13 C14: ensembles."""
import copy
from functools import partial
import numpy as np
import pandas as pd
from .core import facet
from .gen import names, scenarios, probs, simplex_point, moments
from .c_mv import lib


def _samples(case, nmax=5, mmax=7, budget=True, enumerated=False):
    n, m = case.size(1, nmax), case.int(1, mmax) if enumerated else case.size(1, mmax)
    if budget:
        tot = case.choice([1.0, 1.0, 0.5, 2.0])
        X = np.column_stack([simplex_point(case, n, 0.0 if case.chance(0.3) else 0.05) if True else 0 for _ in range(m)])
        X = np.where(np.isfinite(X), X, 1.0 / n) * tot
        if n > 1 and case.chance(0.3):
            d = 0.3 * case.unit(m)
            X[0] += d
            X[1] -= d
    else:
        tot, X = None, case.unit(n, m)
    if m > 1 and case.chance(0.2):
        X[:, -1] = X[:, 0]                         # duplicates
    return n, m, X, tot


def criterion_optimum(X, L):
    """Residual criterion sum_K ||X_{-K} x_{-K} - mean_K||^2 over the simplex; the blend X x is unique for L>=2."""
    n, m = X.shape
    size = m // L
    folds = [list(range(k * size, (k + 1) * size if k < L - 1 else m)) for k in range(L)]
    B, c = [], []
    for K in folds:
        M = X.copy()
        M[:, K] = 0.0
        B.append(M)
        c.append(X[:, K].mean(axis=1))
    B, c = np.vstack(B), np.concatenate(c)
    f = lambda x: float(np.sum((B @ x - c) ** 2))
    # exact by support enumeration (m <= 7)
    best = None
    for mask in range(1, 1 << m):
        S = [i for i in range(m) if mask >> i & 1]
        Z = B[:, S]
        k = len(S)
        K = np.block([[Z.T @ Z, np.ones((k, 1))], [np.ones((1, k)), np.zeros((1, 1))]])
        sol = np.linalg.lstsq(K, np.r_[Z.T @ c, 1.0], rcond=1e-11)[0][:k]
        if np.min(sol) < -1e-10:
            continue
        sol = np.clip(sol, 0, None)
        if sol.sum() <= 0:
            continue
        x = np.zeros(m)
        x[S] = sol / sol.sum()
        v = f(x)
        if best is None or v < best[0]:
            best = (v, x)
    const = float(np.sum(c ** 2))
    return best[0], best[1], const


def _check_stack(case, X, L, s, tot, what, tight):
    s = np.asarray(s, float)
    if tot is not None:
        case.check(abs(np.sum(s) - tot) <= 1e-6 * max(abs(tot), 1e-9), f"{what}: budget {np.sum(s)} != {tot}")
    k = float(np.sqrt(np.max(np.sum(X * X, axis=0))))                       # small exposures are no excuse for a loose blend
    if k == 0:
        return case.check(np.all(s == 0), f"{what}: a blend of nothing", got=s)
    X, s = X / k, s / k
    fstar, x, const = criterion_optimum(X, L)
    want = X @ x
    gap = (1e-10 if tight else 1e-7 * L + 1.5e-6 * abs(fstar - const)) * 2
    d = float(np.sum((s - want) ** 2)) * (L - 1) ** 2 / L      # lower bound on the criterion excess
    case.check(d <= gap + 1e-13, f"{what}: blend is not the minimiser of the cross-validated criterion (excess >= {d:.3g})", got=s * k, want=want * k)


@facet("C13", quick=3000, rule="drawn panels (duplicates, shorts, labels) and weights (permuted labelled series); direct weighted mean; non-trivial = >=2 distinct samples")
def averaging_is_weighted_mean(case):
    from pyvallocation.ensembles import average_exposures
    n, m, X, tot = _samples(case, budget=case.chance(0.7))
    lab = names(case, n)
    snames = [f"s{(7 * i) % 31}" for i in range(m)]
    kind = case.choice(["array", "frame", "series"] if m == 1 else ["array", "frame"])
    panel = X.copy() if kind == "array" else pd.DataFrame(X, index=lab, columns=snames) if kind == "frame" else pd.Series(X[:, 0], index=lab, name=snames[0])
    u = np.round(case.uniform(0, 1, m), 2)
    if case.chance(0.3):
        u[case.int(0, m - 1)] = 0.0
    u[case.int(0, m - 1)] += 0.5
    u = u * case.choice([1.0, 3.0, 1e-3, 100.0])
    mode = case.choice(["none", "list", "array", "series"])
    if mode == "none":
        w, v = None, np.ones(m) / m
    else:
        v = u / u.sum()
        w = list(u) if mode == "list" else u.copy()
        if mode == "series":
            p = case.perm(m)
            w = pd.Series(u[p], index=[snames[i] for i in p]) if kind == "frame" else pd.Series(u)
            if kind == "series":
                w = pd.Series(u, index=[snames[0]])
    case.note(X=X, weights=u, mode=mode, kind=kind)
    out = average_exposures(panel, w)
    case.close(np.asarray(out, float), X @ v, "average", rtol=1e-11, atol=1e-13)
    if kind == "array":
        case.check(isinstance(out, np.ndarray), "array input gives an array")
    else:
        case.check(isinstance(out, pd.Series) and list(out.index) == lab, "labels lost")
    o = np.asarray(out)
    case.check(np.all(o <= X.max(axis=1) + 1e-12) and np.all(o >= X.min(axis=1) - 1e-12), "outside the hull")
    if tot is not None:
        case.close(o.sum(), tot, "budget", rtol=1e-10)
    bad = u.copy()
    how = case.choice(["neg", "nan", "zero", "long", "inf"])
    if how == "neg":
        bad[case.int(0, m - 1)] = -0.1 * u.sum()
    elif how in ("nan", "inf"):
        bad[case.int(0, m - 1)] = float(how)
    elif how == "zero":
        bad[:] = 0.0
    else:
        bad = np.r_[bad, 1.0]
    case.raises(lambda: average_exposures(panel, bad), f"{how} weights", ValueError)
    if kind == "frame" and m > 1:
        case.raises(lambda: average_exposures(panel, pd.Series(u, index=snames[:-1] + ["zz"])), "series lacking a sample", ValueError)
    case.nontrivial(m >= 2 and np.ptp(X, axis=1).max() > 1e-3)


@facet("C13", quick=1500, rule="drawn panels, folds 2..M; exact optimum by support enumeration (blend is unique for L>=2); non-trivial = optimum away from the plain average")
def stacking_minimises_cv_residual(case):
    from pyvallocation.ensembles import exposure_stacking
    n, m, X, tot = _samples(case, budget=case.chance(0.8), enumerated=True)
    lab = names(case, n)
    u = case.choice([1.0, 1.0, 1.0, 0.1, 1e-2, 1e-3, 1e-5, 100.0])          # sleeves of a larger book, notionals
    X, tot = X * u, None if tot is None else tot * u
    panel = pd.DataFrame(X, index=lab) if case.bool() else X.copy()
    if m < 2:
        case.raises(lambda: exposure_stacking(panel, L=2), "more folds than samples", ValueError)
        return case.nontrivial(False)
    L = case.int(2, m)
    case.note(X=X, L=L)
    tight = case.bool()
    opts = dict(abstol=1e-13, reltol=1e-13, feastol=1e-10, maxiters=200) if tight else case.choice([None, {}, {"maxiters": 80}])
    from cvxopt import solvers
    before = dict(solvers.options)
    try:
        s = exposure_stacking(panel, L=L, solver_options=opts)
    except RuntimeError:
        if not tight:
            raise
        case.event("tight options not reached")
        tight, s = False, exposure_stacking(panel, L=L)
    case.check(dict(solvers.options) == before, "global solver options changed")
    case.check(isinstance(s, pd.Series) == isinstance(panel, pd.DataFrame), "container")
    if isinstance(s, pd.Series):
        case.check(list(s.index) == lab, "labels")
    _check_stack(case, X, L, np.asarray(s, float), tot, "exposure_stacking", tight)
    case.raises(lambda: exposure_stacking(panel, L=m + 1), "L > samples", ValueError)
    case.nontrivial(np.max(np.abs(np.asarray(s) - X.mean(axis=1))) > 1e-3)


def _frontier(case, n, lab, tot=1.0):
    pv = lib()
    m = case.int(1, 5)
    X = np.column_stack([simplex_point(case, n) for _ in range(m)]) * tot
    risks = np.round(case.uniform(0.05, 0.4, m), case.choice([1, 4]))
    if case.chance(0.25):
        risks = risks - case.choice([0.1, 0.3, 0.6])                  # a CVaR may be negative: less is still less
    if case.bool():
        risks = np.sort(risks)
    alt = {"Volatility": np.round(case.uniform(0.05, 0.4, m), 3)} if case.bool() else {}
    return pv.PortfolioFrontier(weights=X, returns=case.uniform(-0.1, 0.2, m), risks=risks,
                                risk_measure=case.choice(["Volatility*", "Estimation Risk (||w||)"]), asset_names=lab, alternate_risks=alt)


@facet("C13", quick=2000, rule="drawn frontiers/vectors with chosen or default columns: blend equals blending those columns by hand; mixed labels rejected")
def frontier_blends_use_one_column_each(case):
    pv = lib()
    from pyvallocation.ensembles import average_exposures, exposure_stacking, risk_percentile_selections
    n, k = case.size(1, 4), case.int(2, 5)
    lab = names(case, n) if case.bool() else None
    frs = [_frontier(case, n, lab) for _ in range(k)]
    default = case.bool()
    sel = None if default else [case.choice([None, [case.int(0, f.weights.shape[1] - 1)]]) for f in frs]
    if sel is not None:
        sel = [None if s is None else case.choice([s, tuple(s), np.array(s)]) for s in sel]
    col = [int(np.argmin(f.risks)) if default or sel[i] is None else int(list(sel[i])[0]) for i, f in enumerate(frs)]
    X = np.column_stack([f.weights[:, c] for f, c in zip(frs, col)])
    u = np.round(case.uniform(0.1, 1, k), 2)
    ew = case.choice([None, list(u), u.copy()])
    case.note(X=X, columns=col, ensemble_weights=ew)
    snap = [f.weights.copy() for f in frs]
    a = pv.average_frontiers(frs, sel, ensemble_weights=ew)
    case.close(a.to_numpy(), X @ (np.ones(k) / k if ew is None else u / u.sum()), "average_frontiers", rtol=1e-11)
    L = case.int(2, k)
    s = pv.exposure_stack_frontiers(frs, L, sel)
    _check_stack(case, X, L, s.to_numpy(), 1.0, "exposure_stack_frontiers", False)
    case.close(s.to_numpy(), exposure_stacking(X, L=L), "exposure_stack_frontiers vs exposure_stacking", atol=1e-8)
    entries = [f if case.bool() else (pd.Series(X[:, i], index=lab) if lab else X[:, i].copy()) for i, f in enumerate(frs)]
    esel = [None if not hasattr(e, "to_samples") else [c] for e, c in zip(entries, col)]
    st = pv.stack_portfolios(entries, selections=esel, L=L)
    case.close(np.asarray(st, float), np.asarray(s, float), "stack_portfolios", atol=1e-8)
    if lab:
        for o in (a, s, st):
            case.check(list(o.index) == lab, "labels lost")
    case.check(all(np.array_equal(f.weights, w) for f, w in zip(frs, snap)), "frontier weights changed")
    # aligned percentiles
    q = case.choice([0.0, 0.5, 1.0, 25.0, 75.0])
    ps = risk_percentile_selections(frs, q)
    case.check([list(p) for p in ps] == [[f.index_at_risk_percentile(q)] for f in frs], "risk_percentile_selections", got=ps)
    case.raises(lambda: pv.average_frontiers(frs, [[0, 0]] + [None] * (k - 1)), "two columns of one frontier", ValueError)
    case.raises(lambda: pv.average_frontiers(frs, [None] * (k - 1)), "selection count", ValueError)
    case.raises(lambda: pv.average_frontiers([]), "no frontier", ValueError)
    if lab and n > 1:
        other = _frontier(case, n, lab[::-1])
        case.raises(lambda: pv.average_frontiers(frs + [other]), "different asset order", ValueError)
    case.nontrivial(n > 1 and any(c > 0 for c in col))


# ------------------------------------------------------------------ C14
OPTS = ["mean_variance", "mv", "cvar", "mean-cvar", "rrp", "relaxed_risk_parity", "robust"]


def _mv_callable(wrapper, **kw):
    return wrapper.variance_frontier(**kw)


class _Callable:
    def __call__(self, wrapper, **kw):
        return wrapper.variance_frontier(**kw)


def _by_hand_frontier(opt, wr, kw):
    if callable(opt):
        return wr.variance_frontier(**kw)
    f = {"mean_variance": wr.variance_frontier, "mv": wr.variance_frontier, "cvar": wr.cvar_frontier, "mean-cvar": wr.cvar_frontier,
         "rrp": wr.relaxed_risk_parity_frontier, "relaxed_risk_parity": wr.relaxed_risk_parity_frontier,
         "robust": wr.robust_lambda_frontier}[opt]
    return f(**kw)


def _selector(case, opt):
    """(selector, kwargs, by-hand function on a frontier)."""
    rob = opt == "robust"
    alt = lambda f: "Volatility" if rob and "Volatility" in f.alternate_risks else None      # documented default of robust frontiers
    k = case.choice(["tangency", "min_risk", "max_return", "risk_target", "risk_match", "risk_percentile", "column", "callable", "array", "tuple"])
    if k == "tangency":
        rf = case.choice([None, 0.0, -0.01, -0.05])
        return case.choice(["tangency", "max_sharpe", "Sharpe"]), ({} if rf is None else dict(risk_free_rate=rf)), lambda f: f.tangency(rf or 0.0)[0]
    if k == "min_risk":
        lb = case.choice([None, "Volatility"]) if rob else None
        return case.choice(["min_risk", "minimum_risk"]), ({} if lb is None else dict(risk_label=lb)), lambda f: f.min_risk(risk_label=lb)[0]
    if k == "max_return":
        return case.choice(["max_return", "maximum_return"]), {}, lambda f: f.max_return()[0]
    if k in ("risk_target", "risk_match", "risk_percentile"):
        q = case.choice([0.0, 0.3, 0.5, 0.8, 1.0, 0.15, 0.65])
        if k == "risk_target":
            r = 10.0 if case.bool() else 0.08
            def hand(f):
                return f.at_risk(max_risk=r, risk_label=alt(f))[0]
            return case.choice([k, "max_return_subject_to_risk"]), dict(max_risk=r), hand
        if k == "risk_match":
            r = case.float(0.0, 0.2)
            return case.choice([k, "risk_nearest"]), dict(target_risk=r), lambda f: f.closest_risk(r, risk_label=alt(f))[0]
        return case.choice([k, "risk_pct", "percentile"]), dict(percentile=q), lambda f: f.at_percentile(q, risk_label=alt(f))[0]
    if k == "column":
        j = case.int(0, 1)
        return case.choice(["column", "index"]), dict(index=j), lambda f: f.weights[:, j]
    if k == "callable":
        return (lambda f, shift=0.0: f.min_risk()[0]), case.choice([{}, dict(shift=1.0)]), lambda f: f.min_risk()[0]
    if k == "array":
        return (lambda f: f.weights[:, -1]), {}, lambda f: f.weights[:, -1]
    return (lambda f: f.max_return()), {}, lambda f: f.max_return()[0]


SPECS = ["spec", "alpha", "spec10", "spec9", "core", "Beta"] + [f"s{i}" for i in range(20, 0, -1)]      # out of sorted order


def _spec(case, i, n, lab, T):
    """Specification plus a closure computing the frontier by hand; `exact` tells whether figures must agree to the last digits."""
    pv = lib()
    opt = case.choice(OPTS + [_mv_callable, partial(_mv_callable), _Callable()])
    kw = {}
    if opt in ("rrp", "relaxed_risk_parity"):
        kw["num_portfolios"] = case.int(2, 3)
        kw["max_multiplier"] = 1.2
    elif opt == "robust":
        kw = case.choice([dict(num_portfolios=3, max_lambda=2.0), dict(lambdas=[0.1, 1.0])])
    else:
        kw["num_portfolios"] = case.int(2, 4)
        if opt in ("cvar", "mean-cvar") and case.bool():
            kw["alpha"] = case.choice([0.05, 0.2, 0.3])
    cons = case.choice([None, dict(long_only=True, total_weight=1.0), dict(bounds=(0.0, 0.9)), dict(long_only=False, bounds=(-0.2, 1.0)), dict(total_weight=0.8)])
    if n == 1:
        cons = None
    okw = dict(kw)
    if cons is not None:
        okw["constraints"] = dict(cons) if case.bool() else pv.Constraints.from_dict(dict(cons))
    src = case.choice(["returns", "scenarios", "distribution", "factory", "wrapper"])
    if opt in ("cvar", "mean-cvar") and src == "returns":
        src = "scenarios"
    R, _ = scenarios(case, T, n, allow_gain=False)
    p = probs(case, T, zeros=False)
    dates = pd.date_range("2020-01-31", periods=T, freq="D")
    args, exact = {}, True
    if src in ("returns", "scenarios"):
        df = pd.DataFrame(R, index=dates, columns=lab)
        pm = case.choice(["none", "array", "series"])
        args["returns"] = df
        if pm == "array":
            args["probabilities"] = p
        elif pm == "series":
            args["probabilities"] = pd.Series(p, index=dates).iloc[case.perm(T)] if T <= 12 else pd.Series(p, index=dates).iloc[::-1]
        pp = None if pm == "none" else p
        data = df
        if case.chance(0.3):
            def in_place(d):
                d *= 0.9
                return d
            how = case.int(0, 2)
            if how == 0 and pm != "array" and T > n + 4:           # fewer rows: labelled probabilities follow the rows kept
                cut = case.int(1, 3)
                keep = case.choice([slice(cut, None), slice(None, -cut), np.r_[0, cut + 1:T]])
                args["preprocess"], data = (lambda d: d.iloc[keep]), df.iloc[keep]
                if pp is not None:
                    pp = p[keep] / p[keep].sum()
                dates = data.index
            elif how <= 1:
                args["preprocess"], data = (lambda d: np.expm1(d)), np.expm1(df)
            else:                                              # a preprocessing step that works in place must not reach the caller's frame
                args["preprocess"], data = in_place, df * 0.9
        if np.ptp(np.asarray(data, float), axis=0).min() < 1e-6:
            case.reject()                                          # a constant column has no risk to speak of
        if src == "scenarios":
            args["use_scenarios"] = True
            mk = lambda: pv.AssetsDistribution(scenarios=data, probabilities=None if pp is None else pp.copy())
        else:
            exact = False
            me, ce = case.choice(["sample", "james_stein", "huber"]), case.choice(["sample", "oas", "shrinkage"])
            args.update(mean_estimator=me, cov_estimator=ce)
            proj = case.choice([None, dict(annualization_factor=12), dict(annualization_factor=12, log_to_simple=True), dict(to_simple=True),
                                dict(log_to_simple=False, to_simple=True), dict(log_to_simple=False, annualization_factor=4), dict(log_to_simple=True, to_simple=False), dict(log_to_simple=True, to_simple=True),
                                dict(transform=lambda m, S: (2 * m, 4 * S)), dict(annualization_factor=12, transform=lambda m, S: (m + 0.01, S))])
            args["projection"] = proj

            def mk():
                from pyvallocation.moments import estimate_moments
                from pyvallocation.utils.projection import project_mean_covariance, log2simple
                m, S = estimate_moments(data, p=None if pp is None else pd.Series(pp, index=dates), mean_estimator=me, cov_estimator=ce)
                pr = proj or {}
                if "annualization_factor" in pr:
                    m, S = project_mean_covariance(m, S, annualization_factor=pr["annualization_factor"])
                if pr.get("log_to_simple") or pr.get("to_simple"):
                    m, S = log2simple(m, S)
                if "transform" in pr:
                    m, S = pr["transform"](m, S)
                return pv.AssetsDistribution(mu=m, cov=S)
    else:
        if opt in ("cvar", "mean-cvar"):
            dist = pv.AssetsDistribution(scenarios=pd.DataFrame(R, columns=lab), probabilities=p)
        else:
            mu, S = moments(case, n)
            dist = pv.AssetsDistribution(mu=pd.Series(mu, index=lab), cov=pd.DataFrame(S, index=lab, columns=lab))
        if src == "distribution":
            args["distribution"] = dist
        elif src == "factory":
            args["distribution_factory"] = lambda: copy.deepcopy(dist)
        mk = lambda: copy.deepcopy(dist)
    sel, skw, hand_sel = _selector(case, opt if isinstance(opt, str) else "")
    name = SPECS[i]
    common = dict(optimiser=opt, optimiser_kwargs=okw, selector=sel, selector_kwargs=skw)
    meta = case.choice([None, {}, dict(desk="macro", run=case.int(0, 9)), dict(optimiser="mine", desk=None)])
    if meta is not None:
        common["metadata"] = dict(meta)
    if src == "wrapper":
        spec = pv.PortfolioWrapper(mk()).make_ensemble_spec(name, **common)
    else:
        spec = pv.make_portfolio_spec(name, **args, **common)

    def hand():
        wr = pv.PortfolioWrapper(mk(), constraints=None if cons is None else dict(cons))
        return _by_hand_frontier(opt, wr, kw)
    case.event(f"source {src}")
    case.event(f"optimiser {opt if isinstance(opt, str) else 'callable'}")
    case.event(f"selector {sel if isinstance(sel, str) else 'callable'}")
    return name, spec, hand, hand_sel, exact, dict(meta or {}), {k: args.get(k, d) for k, d in (("mean_estimator", "sample"), ("cov_estimator", "sample"), ("use_scenarios", False)) if src != "wrapper"} | dict(optimiser=opt)


@facet("C14", quick=500, rule="1-3 drawn specifications (source, estimators, projection, optimiser, constraints, selector): frontier, selection and blends by hand; assembled twice; non-trivial = >=2 specifications")
def assembly_equals_by_hand(case):
    pv = lib()
    from pyvallocation.ensembles import average_exposures, exposure_stacking
    n, k, T = case.size(2, 4), case.size(1, 3), case.size(8, 20)
    lab = names(case, n)
    specs = [_spec(case, i, n, lab, T) for i in range(k)]
    hands, wants = [], []
    for name, spec, hand, hsel, exact, meta, settings in specs:
        try:
            f = hand()
            hsel(f)
        except (pv.optimization.InfeasibleOptimizationError, ValueError, KeyError, RuntimeError, IndexError):
            case.reject()
        if not np.all(np.isfinite(f.weights)) or (np.any(f.risks <= 1e-6)):
            case.reject()
        hands.append(f)
    u = np.round(case.uniform(0.1, 1, k), 2)
    ew = case.choice([None, list(u), pd.Series(u[::-1], index=SPECS[:k][::-1])])
    comb = case.choice(["selected", "frontier", "Frontier"])
    ens = case.choice(["average", None, ("average", "stack"), "stack", "none", ["Stack"]]) if k > 1 else case.choice(["average", None])
    folds = case.choice([None, 2, k]) if k > 1 else None
    case.note(k=k, combine=comb, ensemble=ens, folds=folds, ensemble_weights=ew)
    call = lambda: pv.assemble_portfolio_ensemble([s[1] for s in specs], ensemble=ens, combine=comb, stack_folds=folds, ensemble_weights=ew)
    res, res2 = call(), call()
    case.check(list(res.frontiers) == [s[0] for s in specs] and list(res.selections.columns) == [s[0] for s in specs], "specification names")
    for (name, spec, hand, hsel, exact, meta, settings), f in zip(specs, hands):
        md = res.metadata[name]
        case.check(all(k in md and md[k] == v for k, v in meta.items()), f"{name}: metadata not persisted", got=md, given=meta)
        # what the library adds of itself says how the specification was built
        case.check(all(md[k] == v for k, v in settings.items() if k in md and k not in meta and (k != "optimiser" or isinstance(v, str))), f"{name}: metadata misstates the specification", got=md, settings=settings)
        g = res.frontiers[name]
        tol = dict(rtol=1e-9, atol=1e-10) if exact else dict(rtol=2e-3, atol=2e-4)
        case.close(g.returns, f.returns, f"{name}: frontier returns", **tol)
        case.close(g.risks, f.risks, f"{name}: frontier risks", **tol)
        if exact:
            case.close(g.weights, f.weights, f"{name}: frontier weights", **tol)
        case.check(list(g.asset_names or []) == list(f.asset_names or []), f"{name}: asset names")
        case.check(g.risk_measure == f.risk_measure, f"{name}: risk measure")
        want = hsel(g)
        case.close(res.selections[name].to_numpy(), np.asarray(want, float), f"{name}: selected portfolio is not the selector's choice")
        case.check(list(res.selections.index) == lab, f"{name}: labels")
        wants.append(np.asarray(want, float))
        case.close(res2.frontiers[name].weights, g.weights, f"{name}: second assembly differs")
    case.close(res2.selections.to_numpy(), res.selections.to_numpy(), "second assembly selects differently")
    keys = [] if ens in (None, "none") else [e.lower() for e in ([ens] if isinstance(ens, str) else ens)]
    case.check(sorted(res.ensembles) == sorted(keys), "ensemble keys", got=list(res.ensembles))
    X = np.column_stack(wants) if comb == "selected" else np.column_stack([res.frontiers[s[0]].weights[:, int(np.argmin(res.frontiers[s[0]].risks))] for s in specs])
    v = np.ones(k) / k if ew is None else u / u.sum()
    if "average" in keys:
        case.close(res.ensembles["average"].to_numpy(), X @ v, "average blend")
        case.check(list(res.average.index) == lab, "average labels")
        case.close(res2.ensembles["average"], res.ensembles["average"], "second assembly averages differently")
    if "stack" in keys:
        L = min(3, k) if folds is None else min(folds, k)
        case.close(res.ensembles["stack"].to_numpy(), exposure_stacking(X, L=L), "stacked blend", atol=1e-8)
        case.check(res.stacked is res.get("stack") and list(res.stacked.index) == lab, "stack accessors")
    dup = [specs[0][1], specs[0][1]]
    case.raises(lambda: pv.assemble_portfolio_ensemble(dup, ensemble=None), "duplicate specification names", ValueError)
    case.nontrivial(k >= 2)


@facet("C14", quick=300, rule="explicit frontier columns when combining frontiers; unknown names rejected")
def combine_columns_and_unknown_names(case):
    pv = lib()
    n, k = case.size(2, 4), case.int(2, 4)
    lab = names(case, n)
    frs = [_frontier(case, n, lab) for _ in range(k)]
    cols = [case.int(0, f.weights.shape[1] - 1) for f in frs]
    fsel = [None if case.bool() else (c,) for c in cols]
    specs = [pv.ensembles.EnsembleSpec(name=f"x{i}", frontier_factory=(lambda f=f: f), selector=lambda f: f.min_risk(), frontier_selection=s)
             for i, (f, s) in enumerate(zip(frs, fsel))]
    use = [int(np.argmin(f.risks)) if s is None else s[0] for f, s in zip(frs, fsel)]
    X = np.column_stack([f.weights[:, c] for f, c in zip(frs, use)])
    case.note(X=X, use=use)
    res = pv.assemble_portfolio_ensemble(specs, ensemble=("average", "stack"), combine="frontier", stack_folds=2)
    case.close(res.average.to_numpy(), X.mean(axis=1), "average of the chosen columns")
    _check_stack(case, X, 2, res.stacked.to_numpy(), 1.0, "stack of the chosen columns", False)
    for i, f in enumerate(frs):
        case.close(res.selections[f"x{i}"].to_numpy(), f.min_risk()[0].to_numpy(), "tuple selection")
    mk = lambda **kw: pv.make_portfolio_spec("bad", distribution=pv.AssetsDistribution(mu=np.full(n, .1), cov=np.eye(n)), **kw)
    run = lambda **kw: pv.assemble_portfolio_ensemble([mk(**kw)], ensemble=None)
    case.raises(lambda: run(optimiser="nope"), "unknown optimiser", ValueError)
    case.raises(lambda: run(selector="nope"), "unknown selector", ValueError)
    for s in ("risk_target", "risk_match", "risk_percentile", "column"):
        case.raises(lambda: run(selector=s), f"{s} without its parameter", ValueError)
    df = pd.DataFrame(case.normal(8, n) * 0.02, columns=lab)
    case.raises(lambda: pv.assemble_portfolio_ensemble([pv.make_portfolio_spec("b", returns=df, projection=dict(foo=1))], ensemble=None), "unknown projection option", ValueError)
    case.raises(lambda: pv.assemble_portfolio_ensemble(specs, ensemble="nope"), "unknown ensemble", ValueError)
    case.raises(lambda: pv.assemble_portfolio_ensemble(specs, combine="nope"), "unknown combine mode", ValueError)
    case.raises(lambda: pv.assemble_portfolio_ensemble([]), "no specification", ValueError)
    case.raises(lambda: pv.assemble_portfolio_ensemble([pv.make_portfolio_spec("b", returns=df, probabilities=pd.Series(np.ones(8) / 8, index=range(1, 9)))], ensemble=None), "probabilities lacking a scenario", ValueError)


@facet("C14", quick=600, rule="2..4 finished frontiers over the same labelled assets in different orders, selected as tuple, series, table row or column: table and blends go by asset label; what a caller does to the result's metadata stays out of the specification; non-trivial = an order differs")
def reordered_universes(case):
    pv = lib()
    n, k = case.size(2, 5), case.int(2, 4)
    lab = names(case, n)
    perms = [list(range(n)) if i == 0 or case.chance(0.3) else [int(j) for j in case.perm(n)] for i in range(k)]
    frs = [_frontier(case, n, [lab[j] for j in pm]) for pm in perms]
    picks = {"tuple": lambda f: f.min_risk(), "series": lambda f: f.min_risk()[0], "array": lambda f: f.weights[:, int(np.argmin(f.risks))], "named": "min_risk"}
    how = [case.choice(sorted(picks)) for _ in frs]
    meta = [dict(desk=i) for i in range(k)]
    specs = []
    for i, (f, h) in enumerate(zip(frs, how)):
        if h == "named" or case.bool():
            specs.append(pv.make_portfolio_spec(f"x{i}", distribution=pv.AssetsDistribution(mu=np.zeros(n), cov=np.eye(n)), optimiser=lambda wr, f=f: f, selector=picks[h], metadata=meta[i]))
        else:
            specs.append(pv.ensembles.EnsembleSpec(name=f"x{i}", frontier_factory=lambda f=f: f, selector=picks[h], metadata=meta[i]))
    X = np.zeros((n, k))
    for i, (f, pm) in enumerate(zip(frs, perms)):
        X[pm, i] = f.weights[:, int(np.argmin(f.risks))]
    u = np.round(case.uniform(0.1, 1, k), 2)
    ew = case.choice([None, list(u), pd.Series(u[::-1], index=[f"x{i}" for i in range(k)][::-1])])
    case.note(X=X, how=how, perms=perms, weights=ew)
    res = pv.assemble_portfolio_ensemble(specs, ensemble=("average", "stack"), stack_folds=2, ensemble_weights=ew)
    case.close(res.selections.loc[lab].to_numpy(), X, "table of selections by label")
    case.close(res.average.loc[lab].to_numpy(), X @ (np.ones(k) / k if ew is None else u / u.sum()), "average by label", rtol=1e-11)
    _check_stack(case, X, 2, res.stacked.loc[lab].to_numpy(), 1.0, "stack by label", False)
    if any(pm != perms[0] for pm in perms):
        case.raises(lambda: pv.assemble_portfolio_ensemble(specs, ensemble="average", combine="frontier"), "frontiers over differently ordered assets blended as they stand", ValueError)
    for d in res.metadata.values():
        d.clear()
    case.check(all(dict(s.metadata).get("desk") == i and m == dict(desk=i) for i, (s, m) in enumerate(zip(specs, meta))), "clearing the result's metadata reached the specification")
    case.nontrivial(any(pm != perms[0] for pm in perms))


@facet("C14", quick=2500, rule="drawn finished frontiers (several risk measures, several columns, labels) with a named selector: the column by definition, read off the frontier; solver options reach the stacking programme; non-trivial = other measures would choose another column")
def named_selectors(case):
    pv = lib()
    n, m = case.size(2, 4), case.size(2, 6)
    lab = names(case, n)
    W = np.column_stack([simplex_point(case, n) for _ in range(m)])
    W = W + 1e-3 * np.arange(m)                                # distinct columns
    ret, risk, vol = np.sort(case.uniform(-0.05, 0.2, m)) + 1e-5 * np.arange(m), np.sort(case.uniform(0.05, 0.4, m)) + 1e-3 * np.arange(m), case.uniform(0.05, 0.4, m) + 1e-4 * np.arange(m)
    est = case.bool()
    alt = {"Volatility": vol} if case.chance(0.8) else {}
    if case.bool():
        alt["CVaR"] = case.uniform(0.05, 0.4, m) + 1e-4 * np.arange(m)
    f = pv.PortfolioFrontier(weights=W, returns=ret, risks=risk, risk_measure=case.choice(["Estimation Risk", "Estimation Risk (||Σ'^1/2w||_2)"]) if est else case.choice(["Volatility (total)", "CVaR (alpha=0.05)", "Risk"]), asset_names=lab, alternate_risks=alt)
    by_default = "Volatility" if est and "Volatility" in alt else None
    label = case.choice([None, None] + sorted(alt))
    use = label if label is not None else by_default
    rv = risk if use is None else alt[use]
    kind = case.choice(["risk_target", "risk_match", "risk_percentile", "min_risk", "tangency", "max_return", "column"])
    lk = {} if label is None else dict(risk_label=label)
    x = float(case.choice(list(rv)) + case.choice([0.0, 1e-6, 0.01, 0.03]))
    if kind == "risk_target":
        sel, kw = case.choice([kind, "max_return_subject_to_risk"]), dict(max_risk=x, **lk)
        ok = np.flatnonzero(rv <= x)
        want = lambda r, ok_=None: ok[np.argmax(ret[ok])]
    elif kind == "risk_match":
        sel, kw = case.choice([kind, "risk_nearest"]), dict(target_risk=x, **lk)
        want = lambda r: int(np.argmin(np.abs(r - x)))
    elif kind == "min_risk":
        rv = risk if label is None else alt[label]              # the minimum-risk choice keeps the frontier's own measure
        sel, kw = case.choice([kind, "minimum_risk"]), dict(lk)
        want = lambda r: int(np.argmin(r))
    elif kind == "risk_percentile":
        q = case.choice([0.0, 0.25, 0.5, 0.9, 1.0])
        sel, kw = case.choice([kind, "risk_pct", "percentile"]), dict(percentile=q, **lk)
        want = lambda r: int(np.argmin(np.abs(r - (r.min() + q * (r.max() - r.min())))))
    elif kind == "tangency":
        rf = case.choice([-0.1, 0.0, 0.02])
        sel, kw = case.choice([kind, "max_sharpe"]), dict(risk_free_rate=rf)
        want = None
    elif kind == "max_return":
        sel, kw, want = kind, {}, lambda r: int(np.argmax(ret))
    else:
        j = case.int(0, m - 1)
        sel, kw, want = kind, dict(index=j), lambda r: j
    case.note(kind=kind, kw=kw, risk=risk, ret=ret, alt=alt, measure=f.risk_measure)
    case.event(kind)
    spec = pv.make_portfolio_spec("s", distribution=pv.AssetsDistribution(mu=pd.Series(np.full(n, .1), index=lab), cov=pd.DataFrame(np.eye(n), index=lab, columns=lab)),
                                  optimiser=lambda wrapper: f, selector=sel, selector_kwargs=dict(kw))
    run = lambda: pv.assemble_portfolio_ensemble([spec], ensemble=None).selections["s"].to_numpy()
    if kind == "tangency":
        if np.max(ret) <= rf:
            case.nontrivial(False)
            return
        got = run()
        j = int(np.argmin(np.abs(W - got[:, None]).sum(0)))
        case.close(got, W[:, j], "not a column of the frontier")
        best = max(float(np.max((ret - rf) / r)) for r in [risk])
        case.close((ret[j] - rf) / risk[j], best, "chosen ratio", rtol=1e-9)
        case.nontrivial(True)
        return
    if kind == "risk_percentile" and m > 1:                     # the percentile rule itself is C12's: here the measure it is applied to
        hand = f.at_percentile(q, risk_label=use)[0].to_numpy()
        case.close(run(), hand, "percentile on another measure")
        case.nontrivial(True)
        return
    case.close(run(), W[:, want(rv)], f"{kind} is not the column asked for", rtol=0, atol=0)
    case.nontrivial(any(k != use for k in [None] + list(alt)))


@facet("C14", quick=400, rule="drawn single-column frontiers stacked by an assembly with drawn solver options: same outcome as stacking with those options; non-trivial = options too tight to converge")
def stacking_options(case):
    pv = lib()
    from pyvallocation.ensembles import exposure_stacking
    n, k = case.size(2, 4), case.size(2, 5)
    lab = names(case, n)
    X = np.column_stack([simplex_point(case, n) for _ in range(k)])
    opts = case.choice([{"maxiters": 1}, {"maxiters": 2}, {"maxiters": 60}, {"abstol": 1e-3, "reltol": 1e-2, "feastol": 1e-3}, None])
    comb = case.choice(["selected", "frontier"])
    L = case.int(2, k)
    case.note(X=X, options=opts, combine=comb, L=L)
    specs = [pv.ensembles.EnsembleSpec(name=f"x{i}", frontier_factory=lambda i=i: pv.PortfolioFrontier(weights=X[:, [i]], returns=np.array([0.1]), risks=np.array([0.2]), risk_measure="r", asset_names=lab), selector=lambda f: f.min_risk()) for i in range(k)]

    def outcome(fn):
        try:
            return np.asarray(fn(), float)
        except RuntimeError as exc:
            return str(exc)[:40]
    a = outcome(lambda: pv.assemble_portfolio_ensemble(specs, ensemble="stack", combine=comb, stack_folds=L, **({} if opts is None else dict(stack_kwargs=dict(opts)))).stacked.to_numpy())
    b = outcome(lambda: exposure_stacking(X, L=L, solver_options=opts))
    case.check(isinstance(a, str) == isinstance(b, str), f"assembly: {a if isinstance(a, str) else 'blend'}, stacking itself: {b if isinstance(b, str) else 'blend'} with options {opts}")
    if not isinstance(a, str):
        case.close(a, b, "stacked with other options", rtol=0, atol=1e-9)
    case.nontrivial(isinstance(a, str))
