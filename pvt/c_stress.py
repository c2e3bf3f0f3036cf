"""C32 C33: stress tests."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import names, scenarios, probs
from .c_perf import report_figures

MAP = {"return": "mean", "stdev": "stdev", "ENS": "ENS"}


def check_row(case, row, suffix, R, p, w, conf, demean, what):
    tag = int(round(conf * 100))
    rep = {MAP.get(k, k): row[f"{k}_{suffix}"] for k in ("return", "stdev", f"VaR{tag}", f"CVaR{tag}", "ENS")}
    report_figures(case, rep, R, p, w, conf, demean, f"{what} ({suffix})")


def entropy(q, p):
    m = q > 0
    if np.any(p[m] == 0):
        return np.inf
    return float((q[m] * np.log(q[m] / p[m])).sum())


def setup(case, Tmax=20):
    T, n, m = case.size(1, Tmax), case.size(1, 4), case.size(1, 3)
    R, _ = scenarios(case, T, n)
    p = probs(case, T)
    lab = names(case, n)
    if isinstance(lab[0], int):
        lab = [f"A{x}" for x in lab]
    W = np.round(case.unit(n, m), 3)
    return T, n, m, R, p, lab, W


def containers(case, W, lab, labelled, single=False):
    """(weights argument, W in canonical order, expected portfolio labels)"""
    n, m = W.shape
    kinds = ["vector", "matrix", "list"] + (["series", "frame", "mapping"] * 2 if labelled else [])
    kind = case.choice(kinds)
    o = case.perm(n) if labelled else np.arange(n)
    if kind in ("vector", "list", "series", "mapping"):
        W = W[:, :1]
        m = 1
    if kind in ("vector", "list"):
        return (W[:, 0] if kind == "vector" else list(W[:, 0])), W, ["portfolio_0"], kind, False
    if kind == "matrix":
        return W, W, [f"portfolio_{i}" for i in range(m)], kind, False
    moved = not np.array_equal(o, np.arange(n))
    if kind == "series":
        nm = case.choice([None, "mix"])
        return pd.Series(W[:, 0], index=lab, name=nm).iloc[o], W, [nm or "portfolio_0"], kind, moved
    if kind == "mapping":
        return {lab[i]: float(W[i, 0]) for i in o}, W, ["portfolio_0"], kind, moved
    cols = [f"P{j}" for j in range(m)]
    return pd.DataFrame(W, index=lab, columns=cols).iloc[o], W, cols, kind, moved


def check_table(case, df, W, labels, R, p, conf, demean, what, stressed=None):
    """stressed = (R*, p*, divergence or None)"""
    tag = int(round(conf * 100))
    cols = [f"{k}_nom" for k in ("return", "stdev", f"VaR{tag}", f"CVaR{tag}", "ENS")]
    if stressed is not None:
        cols += [c[:-4] + "_stress" for c in cols]
        if stressed[2] is not None:
            cols.append("KL_q_p")
    case.check(list(df.index) == labels, f"{what}: portfolio labels {list(df.index)}")
    case.check(set(df.columns) == set(cols), f"{what}: columns {list(df.columns)}")
    for j in range(W.shape[1]):
        row = df.iloc[j]
        check_row(case, row, "nom", R, p, W[:, j], conf, demean, f"{what}, portfolio {j}")
        if stressed is not None:
            Rs, ps, kl = stressed
            check_row(case, row, "stress", Rs, ps, W[:, j], conf, demean, f"{what}, portfolio {j}")
            if kl is not None:
                got = row["KL_q_p"]
                case.check(got >= 0, f"{what}: negative divergence {got}")
                if np.isinf(kl):
                    case.check(got > 30 * ps[p == 0].sum() - 1, f"{what}: divergence {got} off the nominal support")
                else:
                    case.close(got, kl, f"{what}: divergence", rtol=1e-9, atol=1e-12)


@facet("C32", quick=3500, rule="one or many portfolios (arrays, lists, shuffled series/frames/mappings), nominal and stressed probabilities (zeros, equal, absent), linear or arbitrary scenario maps, demeaning: every figure recomputed, divergence equals relative entropy; label mismatches and bad transforms raise; non-trivial = a stress present and three or more scenarios")
def stress_test_matches(case):
    import pyvallocation as pv
    T, n, m, R, p, lab, W = setup(case)
    conf = case.choice([0.95, 0.9, 0.5, 0.75, 0.99, case.float(0.02, 0.99)])
    demean = case.bool()
    frame = case.chance(0.7)
    scen = pd.DataFrame(R, columns=lab, index=[f"d{i}" for i in range(T)]) if frame else R
    src, W, labels, kind, moved = containers(case, W, lab, frame)
    kw = dict(confidence=conf, demean=demean)
    pn = np.full(T, 1.0 / T)
    if case.bool():
        pn = p
        kw["probabilities"] = case.choice([p, list(p), pd.Series(p, index=[f"d{i}" for i in range(T)]), 3 * p])
    ps = None
    if case.chance(0.6):
        ps = pn.copy() if case.chance(0.15) else probs(case, T)
        kw["stressed_probabilities"] = ps if case.bool() else ps * 2.0
    Rs, tr = R, None
    if case.chance(0.6):
        how = case.choice(["shift", "scale", "matrix", "all", "custom"])
        A = np.round(case.unit(n, n), 2)
        A = {"full": A, "lower": np.tril(A), "upper": np.triu(A), "diagonal": np.diag(np.diag(A))}[case.choice(["full", "full", "lower", "upper", "diagonal"])]
        a, b = case.float(-2.5, 2.5), np.round(case.unit(n) * 0.1, 3)
        arg = {}
        if how in ("matrix", "all"):
            arg["matrix"] = A
            Rs = np.array([[sum(A[i, j] * r[j] for j in range(n)) for i in range(n)] for r in R])
        if how in ("scale", "all"):
            arg["scale"] = a
            Rs = Rs * a
        if how in ("shift", "all"):
            arg["mean_shift"] = b if case.bool() else list(b)
            Rs = Rs + b
        tr = pv.linear_map(**arg)
        if how == "custom":
            tr, Rs = (lambda X: np.minimum(X, 0.01) * 2), np.minimum(R, 0.01) * 2
            if case.bool():                                      # a shock written in place
                def tr(X, a=a):
                    X[:, 0] += a * 0.1
                    return X
                Rs = R.copy()
                Rs[:, 0] += a * 0.1
        kw["transform"] = tr
    case.note(R=R, W=W, labels=lab, kind=kind, nominal=pn, stressed=ps, options=sorted(kw))
    keep = R.copy()
    df = pv.stress_test(src, scen, **kw)
    stressed = None
    if ps is not None or tr is not None:
        stressed = (Rs, pn if ps is None else ps, None if ps is None else entropy(ps, pn))
    check_table(case, df, W, labels, R, pn, conf, demean, "stress test", stressed)
    case.check(np.array_equal(R, keep), "scenarios modified")
    case.event("labels moved", moved)
    if frame and kind in ("series", "frame", "mapping"):
        k = lab[case.int(0, n - 1)]
        if kind == "mapping":
            less, more = {a: v for a, v in src.items() if a != k}, {**src, "other": 0.0}
        else:
            less = src.drop(k)
            more = pd.concat([src, src.iloc[:1].rename(index={src.index[0]: "other"}) if kind == "frame" else src.iloc[:1].rename({src.index[0]: "other"})])
        if n > 1:
            case.raises(lambda: pv.stress_test(less, scen, **kw), "weights lacking an asset")
        case.raises(lambda: pv.stress_test(more, scen, **kw), "weights naming an unknown asset")
    case.raises(lambda: pv.stress_test(np.full(n + 1, 0.1), scen), "weights of the wrong length", ValueError)
    case.raises(lambda: pv.stress_test(src, scen, transform=lambda X: X[:, :0]), "transform changing the shape", ValueError)
    case.raises(lambda: pv.stress_test(src, scen, transform=lambda X: X / 0.0 * np.nan), "transform giving NaN", ValueError)
    case.raises(lambda: pv.stress_test(src, scen, confidence=1.0), "confidence of one", ValueError)
    case.nontrivial(stressed is not None and T >= 3)


@facet("C32", quick=2500, rule="decay, kernel and view-based stresses with random options equal stress_test run with independently computed probabilities; non-trivial = three or more scenarios")
def named_stresses_match(case):
    import pyvallocation as pv
    T, n, m, R, p, lab, W = setup(case)
    conf, demean = case.choice([0.95, 0.9, 0.5, 0.99]), case.bool()
    frame = case.chance(0.6)
    scen = pd.DataFrame(R, columns=lab) if frame else R
    src, W, labels, kind, moved = containers(case, W, lab, frame)
    kw = dict(confidence=conf, demean=demean)
    pn = np.full(T, 1.0 / T)
    if case.bool():
        pn = p
        kw["probabilities"] = p
    how = case.choice(["decay", "kernel", "views"])
    case.event(how)
    if how == "decay":
        hl = 60
        if case.chance(0.8):
            hl = kw["half_life"] = case.choice([case.int(1, 100), case.logfloat(0.3, 1e3)])
        q = 2.0 ** (-np.arange(T)[::-1] / hl)
        f = pv.exp_decay_stress
        case.note(half_life=hl)
    elif how == "kernel":
        v = np.round(case.normal(T), 3) * case.logfloat(0.01, 10)
        if T == 1 or np.ptp(v) == 0 or case.bool():
            h = kw["bandwidth"] = max(np.abs(v).max(), 0.01) * case.logfloat(0.3, 5)
        else:
            h = 1.06 * np.std(v, ddof=1) * T ** (-0.2)
        x = v[-1]
        if case.bool():
            x = kw["target"] = 0.0 if case.chance(0.2) else float(v[case.int(0, T - 1)] + case.float(-1, 1) * h)
        q = np.exp(-(v - x) ** 2 / (2 * h * h))
        kw["focus_series"] = v if case.bool() else pd.Series(v)
        f = pv.kernel_focus_stress
        case.note(focus=v, bandwidth=h, target=x)
        if q.sum() < 1e-200:
            case.reject()
        bad = dict(kw, focus_series=np.append(v, 0.0))
        case.raises(lambda: f(src, scen, **bad), "focus series of the wrong length", ValueError)
    else:
        q = probs(case, T)
        kw["posterior_probabilities"] = q if case.bool() else q.reshape(-1, 1)
        f = pv.entropy_pooling_stress
    q = q / q.sum()
    case.note(R=R, W=W, labels=lab, kind=kind, nominal=pn, stressed=q)
    df = f(src, scen, **kw)
    check_table(case, df, W, labels, R, pn, conf, demean, how, (R, q, entropy(q, pn)))
    plain = pv.stress_test(src, scen, stressed_probabilities=q, **{k: v for k, v in kw.items() if k in ("probabilities", "confidence", "demean")})
    case.check(list(plain.columns) == list(df.columns), f"{how}: columns differ from stress_test")
    case.nontrivial(T >= 3)


@facet("C33", quick=700, rule="random drivers, horizon, seed, repricing (callable, own-name, multi-driver mappings) and weights in every container: nominal and (with mean views) stressed figures equal the reports recomputed after project_scenarios and repricing by hand with seeds s and s+1 under uniform and view-implied probabilities; non-trivial = views present or labels moved")
def invariant_stress_matches(case):
    import pyvallocation as pv
    from pyvallocation.utils import projection as pj
    T, K = case.int(4, 14), case.int(1, 4)
    inv = 0.03 * case.normal(T, K)
    drivers = [d for d in names(case, K)]
    if isinstance(drivers[0], int):
        drivers = [f"D{x}" for x in drivers]
    df = pd.DataFrame(inv, columns=drivers)
    frame = case.chance(0.8)
    mode = case.choice(["callable", "default", "mapping", "multi"] if frame else ["callable", "default"])
    if mode == "callable":
        c = case.float(0.5, 2.0)
        rp, hand, inst = (lambda y: c * y + y ** 2), (lambda Y: c * Y + Y ** 2), drivers
    elif mode == "default":
        rp, hand, inst = case.choice([None, pj.reprice_exp]), np.expm1, drivers
    elif mode == "mapping":
        keep = [drivers[i] for i in case.perm(K)[: case.int(1, K)]]
        rp = {d: pj.reprice_exp for d in keep}
        hand, inst = (lambda Y: np.expm1(Y[:, [drivers.index(d) for d in keep]])), keep
    else:
        two = [drivers[i] for i in case.perm(K)[: min(K, 2)]]
        ix = [drivers.index(d) for d in two]
        rp = {"Swap": (two, lambda Y: (Y if Y.ndim > 1 else Y[:, None]) @ np.arange(1, len(two) + 1)), "Stock": (drivers[-1], pj.reprice_exp)}
        hand = lambda Y: np.column_stack([Y[:, ix] @ np.arange(1, len(two) + 1), np.expm1(Y[:, -1])])
        inst = ["Swap", "Stock"]
    n = len(inst)
    W = np.round(case.unit(n, case.int(1, 3)), 3)
    src, W, labels, kind, moved = containers(case, W, list(inst), frame)
    h, sims, seed = case.size(1, 4, 40), case.size(2, 25), case.int(0, 10 ** 6)
    conf, demean = case.choice([0.95, 0.9, 0.5]), case.bool()
    u = np.full(sims, 1.0 / sims)
    views, q = None, None
    if case.chance(0.65):
        b = case.uniform(0.2, 1.0, T)
        views = {}
        for k in case.perm(K)[: case.choice([1, 1, 2, 3, K])]:     # all read from one distribution, so they are consistent
            target = float((b / b.sum()) @ inv[:, k])
            how = case.choice(["eq", "ge", "le"])
            views[drivers[k] if frame else str(k)] = target if how == "eq" else ((">=", target) if how == "ge" else ("<=", target))
        q = pv.FlexibleViewsProcessor(prior_risk_drivers=df if frame else inv, mean_views=dict(views)).get_posterior_probabilities().ravel()
    case.note(invariants=inv, drivers=drivers, instruments=inst, mode=mode, kind=kind, W=W, views=str(views), horizon=h, sims=sims, seed=seed)
    kw = dict(horizon=h, n_simulations=sims, seed=seed, confidence=conf, demean=demean)
    out = pv.stress_invariants(df if frame else inv, src, rp, stress_views=views, **kw)
    case.check(out.shape[0] == W.shape[1], "one row per portfolio expected")
    nom = hand(np.asarray(pj.project_scenarios(inv, investment_horizon=h, n_simulations=sims, seed=seed)))
    for j in range(W.shape[1]):
        check_row(case, out.iloc[j], "nom", nom, u, W[:, j], conf, demean, f"portfolio {j}")
    if q is not None:
        st = hand(np.asarray(pj.project_scenarios(inv, investment_horizon=h, p=q, n_simulations=sims, seed=seed + 1)))
        for j in range(W.shape[1]):
            check_row(case, out.iloc[j], "stressed", st, u, W[:, j], conf, demean, f"portfolio {j}")
    else:
        case.check(not any(c.endswith("stressed") for c in out.columns), "stressed figures without views")
    if frame and kind in ("series", "frame", "mapping") and n > 1:
        k = inst[case.int(0, n - 1)]
        less = {a: v for a, v in src.items() if a != k} if kind == "mapping" else src.drop(k)
        case.raises(lambda: pv.stress_invariants(df, less, rp, stress_views=views, **kw), "weights lacking an instrument")
    if not frame:
        case.raises(lambda: pv.stress_invariants(inv, src, {"a": pj.reprice_exp}, **kw), "mapping repricer without driver names", (TypeError, KeyError))
    case.event("views", views is not None)
    case.event("labels moved", moved)
    case.nontrivial(views is not None or moved)
