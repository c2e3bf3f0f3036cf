"""C20: scenario P&L, performance, horizon and drawdown reports."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import names, scenarios, probs
from .oracle import cvar_exact
from .c_prob import var_ok


def report_figures(case, rep, R, p, w, conf, demean, what, tol=1e-9):
    """Check mean/stdev/VaR/CVaR/ENS of a mapping-like report against recomputation."""
    tag = int(round(conf * 100))
    case.check(set(rep.keys()) == {"mean", "stdev", f"VaR{tag}", f"CVaR{tag}", "ENS"}, f"{what}: fields {list(rep.keys())}")
    x = R @ w
    s = max(1.0, np.abs(x).max())
    mean = p @ x
    case.close(rep["mean"], mean, f"{what}: mean", rtol=tol, atol=1e-10 * s)
    case.close(rep["stdev"], np.sqrt(p @ (x - mean) ** 2), f"{what}: deviation", rtol=1e-7, atol=2e-8 * s)
    L = -(x - mean) if demean else -x
    a = 1 - conf
    case.check(var_ok(L, p, a, rep[f"VaR{tag}"], 1e-9 * s) and np.abs(L - rep[f"VaR{tag}"]).min() <= 1e-9 * s,
               f"{what}: VaR {rep[f'VaR{tag}']} is not the loss quantile", losses=L)
    case.close(rep[f"CVaR{tag}"], cvar_exact(L, p, a), f"{what}: CVaR", rtol=1e-8, atol=1e-11 * s / a + 1e-10)
    q = p[p > 0]
    case.close(rep["ENS"], np.exp(-(q * np.log(q)).sum()), f"{what}: effective scenarios", rtol=1e-9)


def _setup(case, Tmax=25, nmax=5):
    T, n = case.size(1, Tmax), case.size(1, nmax)
    R, _ = scenarios(case, T, n)
    p = probs(case, T)
    lab = names(case, n)
    w = np.round(case.unit(n), 3)
    return T, n, R, p, lab, w


def shuffled(case, w, lab, kinds=("series", "frame")):
    """The same weights under shuffled labels."""
    o = case.perm(len(lab))
    s = pd.Series(w, index=lab, name="mix").iloc[o]
    kind = case.choice(kinds)
    return {"series": s, "frame": s.to_frame(case.choice(["mix", 0])), "mapping": s.to_dict()}[kind], kind, not np.array_equal(o, np.arange(len(lab)))


@facet("C20", quick=4000, rule="one or many portfolios as arrays, lists, shuffled series, frames or mappings over frame or array scenarios: P&L equals R w by label; absent assets raise; non-trivial = labelled weights in another order")
def scenario_pnl_matches(case):
    from pyvallocation.utils.performance import scenario_pnl
    T, n, R, p, lab, w = _setup(case)
    m = case.int(1, 3)
    W = np.round(case.unit(n, m), 3)
    rows = pd.Index([f"d{i}" for i in range(T)], name="date")
    frame = case.chance(0.75)
    scen = pd.DataFrame(R, index=rows, columns=lab) if frame else R
    kind = case.choice(["vector", "list", "matrix", "series", "frame", "mapping", "series", "frame", "mapping"])
    o = case.perm(n) if frame else np.arange(n)
    case.note(kind=kind, R=R, W=W, labels=lab, order=o, frame_scenarios=frame)
    names_m = [f"P{j}" for j in range(m)]
    src = dict(vector=W[:, 0], list=list(W[:, 0]), matrix=W, series=pd.Series(W[:, 0], index=lab, name="mix").iloc[o],
               frame=pd.DataFrame(W, index=lab, columns=names_m).iloc[o],
               mapping={lab[i]: W[i, 0] for i in o})[kind]
    out = scenario_pnl(src, scen)
    want = R @ W if kind in ("matrix", "frame") else R @ W[:, 0]
    got = np.asarray(out, float)
    if kind == "matrix" and m == 1:
        case.check(got.size == T, "shape of the P&L")
        got, want = got.reshape(-1), want.reshape(-1)
    case.close(got, want, "scenario P&L", rtol=1e-12, atol=1e-13)
    if frame and kind in ("series", "frame", "mapping"):
        case.check(list(out.index) == list(rows), "scenario labels lost")
    if kind == "frame":
        case.check(list(out.columns) == names_m, "portfolio labels lost")
    if frame and kind in ("series", "frame", "mapping"):
        k = case.int(0, n - 1)
        gone = [lab[i] for i in o if i != k]
        other = "not there"
        bad = dict(series=lambda: src.drop(lab[k]), frame=lambda: src.drop(lab[k]), mapping=lambda: {a: src[a] for a in gone})[kind]()
        wrong = dict(series=lambda: src.rename({lab[k]: other}), frame=lambda: src.rename(index={lab[k]: other}),
                     mapping=lambda: {(other if a == lab[k] else a): v for a, v in src.items()})[kind]()
        case.raises(lambda: scenario_pnl(bad, scen), "weights lacking an asset", ValueError)
        case.raises(lambda: scenario_pnl(wrong, scen), "weights naming another asset", ValueError)
        held = case.choice([0.25, -0.1])
        more = dict(series=lambda: pd.concat([src, pd.Series([held], index=[other])]), frame=lambda: pd.concat([src, pd.DataFrame([[held] * m], index=[other], columns=names_m)]),
                    mapping=lambda: {**src, other: held})[kind]()
        case.raises(lambda: scenario_pnl(more, scen), "weights holding an asset absent from the scenarios", ValueError)
    case.raises(lambda: scenario_pnl(np.append(W[:, 0], 0.1), scen), "weight vector of the wrong length", ValueError)
    case.nontrivial(frame and not np.array_equal(o, np.arange(n)) and kind in ("series", "frame", "mapping"))


@facet("C20", quick=3500, rule="array, series or one-column frame weights (shuffled labels) over frame or array scenarios, with or without probabilities and demeaning: every figure recomputed; mismatched labels or sizes raise; non-trivial = labels in another order or non-uniform probabilities")
def performance_report_matches(case):
    from pyvallocation.utils.performance import performance_report
    T, n, R, p, lab, w = _setup(case)
    conf = case.choice([0.95, 0.9, 0.99, 0.5, 0.75, case.float(0.02, 0.99)])
    demean = case.bool()
    frame = case.bool()
    scen = pd.DataFrame(R, columns=lab) if frame else R
    if frame:
        src, kind, moved = shuffled(case, w, lab)
    else:
        src, kind, moved = case.choice([w, list(w), w.reshape(-1, 1)]), "array", False
    given = case.chance(0.75)
    q = p if given else np.full(T, 1.0 / T)
    raw = p * case.choice([1.0, 1.0, 7.0, 1 + 4e-6])
    kw = dict(confidence=conf, demean=demean)
    if given:
        kw["probabilities"] = case.choice([raw, list(raw), pd.Series(raw, index=[f"d{i}" for i in range(T)])])
    case.note(kind=kind, R=R, p=q, w=w, labels=lab, confidence=conf, demean=demean)
    rep = performance_report(src, scen, **kw)
    case.check(isinstance(rep, pd.Series), "report is not a Series")
    report_figures(case, rep, R, q, w, conf, demean, "performance report")
    if frame and kind != "mapping":
        k = lab[case.int(0, n - 1)]
        case.raises(lambda: performance_report(src.drop(k), scen, **kw), "weights lacking an asset", ValueError)
        case.raises(lambda: performance_report(src.rename({k: "other"}) if kind == "series" else src.rename(index={k: "other"}), scen, **kw), "weights naming another asset", ValueError)
        one = pd.Series([0.2], index=["other"]) if kind == "series" else pd.DataFrame([[0.2]], index=["other"], columns=src.columns)
        case.raises(lambda: performance_report(pd.concat([src, one]), scen, **kw), "weights holding an asset absent from the scenarios", ValueError)
    case.raises(lambda: performance_report(np.append(w, 0.1), scen, **kw), "weight vector of the wrong length", ValueError)
    for c in (0.0, 1.0, 1.2, -0.5, float("nan")):
        case.raises(lambda: performance_report(src, scen, confidence=c), f"confidence {c}", ValueError)
    case.nontrivial(T > 2 and (moved or given))


def _reprice(case, n):
    """(argument, same function by formula)"""
    from pyvallocation.utils import projection as pj
    k = case.choice(["default", "exp", "taylor", "linear"])
    if k == "default":
        return None, lambda y: np.exp(y) - 1, k
    if k == "exp":
        return pj.reprice_exp, lambda y: np.exp(y) - 1, k
    if k == "linear":
        c = case.float(0.1, 3.0)
        return (lambda y: c * y), (lambda y: c * y), k
    d, g = case.uniform(-3, 3, n), case.uniform(-20, 20, n)
    return (lambda y: pj.reprice_taylor(y, delta=d, gamma=g)), (lambda y: d * y + 0.5 * g * y ** 2), k


@facet("C20", quick=1500, rule="several horizons (with the named ones), any repricer, probabilities, labels and seed: every row equals the report recomputed on project_scenarios with seed + position; non-trivial = at least two horizons")
def horizon_report_matches(case):
    from pyvallocation.utils import performance as pf, projection as pj
    T, n, R, p, lab, w = _setup(case, 12, 4)
    R = R * 0.5
    hs = []
    for _ in range(case.int(1, 4)):
        h = case.choice([1, 2, 3, 4, 5, 13, 26, 52, 7, 53, 104, case.int(8, 130)])
        if h not in hs:
            hs.append(h)
    sims, seed = case.size(1, 30, 300), case.int(0, 10 ** 6)
    conf = case.choice([0.95, 0.9, 0.75, 0.5, 0.99])
    arg, formula, kind = _reprice(case, n)
    frame = case.bool()
    inv = pd.DataFrame(R, columns=lab) if frame else R
    src = shuffled(case, w, lab)[0] if frame else w
    given = case.bool()
    pin = p if given else None
    case.note(R=R, p=pin, w=w, labels=lab, horizons=hs, n_simulations=sims, seed=seed, reprice=kind, confidence=conf)
    kw = {} if arg is None else dict(reprice=arg)
    rep = pf.horizon_report(src, inv, horizons=hs, n_simulations=sims, p=pin, confidence=conf, seed=seed, **kw)
    named = {4: "1m", 13: "3m", 26: "6m", 52: "1y"}
    case.check(list(rep.index) == [named.get(h, f"{h}w") for h in hs], "row labels", got=list(rep.index))
    u = np.full(sims, 1.0 / sims)
    for i, h in enumerate(hs):
        y = pj.project_scenarios(R, investment_horizon=h, p=pin, n_simulations=sims, seed=seed + i)
        report_figures(case, rep.iloc[i], formula(y), u, w, conf, False, f"horizon {h}", tol=1e-8)
    case.nontrivial(len(hs) > 1 and sims > 2)


@facet("C20", quick=2500, rule="any horizon (from one step), repricer, probabilities and shuffled labels: summary equals the drawdowns from initial wealth one recomputed on simulate_paths with the same seed; non-trivial = more than one step and labels moved or unequal probabilities")
def drawdown_summary_matches(case):
    from pyvallocation.utils import performance as pf, projection as pj
    T, n, R, p, lab, w = _setup(case, 12, 4)
    w = np.abs(w) / max(np.abs(w).sum(), 1e-3) * case.choice([1.0, 1.0, 0.4, 1.6])
    R = R * 0.4
    h, paths, seed = case.size(1, 8, 80), case.size(1, 25, 300), case.int(0, 10 ** 6)
    conf = case.choice([0.95, 0.9, 0.5, 0.99, case.float(0.02, 0.99)])
    arg, formula, kind = _reprice(case, n)
    if kind == "taylor":
        arg, formula, kind = None, (lambda y: np.exp(y) - 1), "default"
    frame = case.bool()
    inv = pd.DataFrame(R, columns=lab) if frame else R
    moved = False
    src = w
    if frame:
        src, _, moved = shuffled(case, w, lab, ("series", "mapping", "frame"))
    pin = p if case.bool() else None
    case.note(R=R, p=pin, w=w, labels=lab, horizon=h, n_paths=paths, seed=seed, reprice=kind, confidence=conf)
    kw = {} if arg is None else dict(reprice=arg)
    rep = pf.drawdown_quantile(src, inv, h, confidence=conf, n_paths=paths, p=pin, seed=seed, **kw)
    y = pj.simulate_paths(R, horizon=h, n_paths=paths, p=pin, seed=seed)
    wealth = np.concatenate([np.ones((paths, 1)), 1 + formula(y) @ w], axis=1)
    dd = np.zeros(paths)
    for i in range(paths):
        peak = wealth[i, 0]
        for v in wealth[i]:
            peak = max(peak, v)
            dd[i] = max(dd[i], (peak - v) / peak)
    tag = f"max_dd_{int(round(conf * 100))}"
    case.check(set(rep.index) == {"max_dd_mean", "max_dd_median", tag, "max_dd_worst"} , "fields", got=list(rep.index))
    for k, v in (("max_dd_mean", dd.mean()), ("max_dd_median", np.median(dd)), ("max_dd_worst", dd.max()), (tag, np.quantile(dd, conf))):
        case.close(rep[k], v, k, rtol=1e-8, atol=1e-10)
    case.nontrivial((h > 1) and (moved or pin is not None or not frame))
    if frame and arg is None:
        s = pd.Series(w, index=lab)
        k = lab[case.int(0, n - 1)]
        case.raises(lambda: pf.drawdown_quantile(s.drop(k), inv, h, n_paths=3, seed=1), "weights lacking an asset", ValueError)
        case.raises(lambda: pf.drawdown_quantile(s.rename({k: "other"}), inv, h, n_paths=3, seed=1), "weights naming another asset", ValueError)
