"""C12: frontier selectors and exports."""
import numpy as np
import pandas as pd
from .core import facet
from .gen import names
from .c_mv import lib


def _frontier(case):
    """A frontier built directly; columns are pairwise different so that the chosen one is identifiable."""
    pv = lib()
    n, m = case.size(1, 5), case.size(1, 8)
    W = np.round(case.unit(n, m), 3)
    W[0] = np.arange(m) + 0.5 * np.abs(W[0])            # distinct columns
    sort = case.bool()

    def vec(lo, hi):
        v = case.uniform(lo, hi, m)
        v = np.round(v, case.choice([1, 2, 6]))             # coarse rounding gives ties
        return np.sort(v) if sort else v
    ret = vec(-0.2, 0.4)
    risk = np.abs(vec(0.0, 1.0)) + (0.1 if case.chance(0.7) else 0.0)
    alts = {}
    for name in ["Volatility", "CVaR (95%)"][: case.int(0, 2)]:
        alts[name] = case.uniform(-0.5, 1.0, m).round(case.choice([1, 6]))
    lab = names(case, n) if case.bool() else None
    fr = pv.PortfolioFrontier(weights=W.copy(), returns=ret.copy(), risks=risk.copy(), risk_measure="Primary",
                              asset_names=lab, alternate_risks={k: v.copy() for k, v in alts.items()})
    label = case.choice([None, "Primary"] + list(alts))
    rv = risk if label in (None, "Primary") else alts[label]
    case.note(returns=ret, risks=risk, alts=alts, label=label)
    case.event("alternate measure", label not in (None, "Primary"))
    return pv, fr, W, ret, risk, alts, lab, label, rv


def _unpack(case, fr, W, ret, rv, lab, out, what):
    """Identify the returned column and check that its own figures come with it."""
    w, r, k = out
    case.check(isinstance(w, pd.Series), f"{what}: weights are not a Series")
    case.check(list(w.index) == list(lab if lab else range(W.shape[0])), f"{what}: labels", got=list(w.index))
    hits = [j for j in range(W.shape[1]) if np.array_equal(W[:, j], w.to_numpy())]
    case.check(len(hits) == 1, f"{what}: returned weights are not a frontier column", got=w)
    j = hits[0]
    case.check(r == ret[j], f"{what}: return {r} is not that of column {j} ({ret[j]})")
    case.check(k == rv[j], f"{what}: risk {k} is not that of column {j} under the requested measure ({rv[j]})")
    return j


def _limit(case, v):
    """A limit at, just beside, between or beyond the values."""
    x = float(v[case.int(0, len(v) - 1)])
    return x + case.choice([0.0, 0.0, 1e-9, -1e-9, 0.03, -0.03, 5.0, -5.0])


@facet("C12", quick=8000, rule="drawn frontier (unsorted, ties, zero or negative alternate risks) and query at/beside/between/beyond column values; brute-force best column; non-trivial = >=3 columns")
def selectors_return_best_column(case):
    pv, fr, W, ret, risk, alts, lab, label, rv = _frontier(case)
    m = W.shape[1]
    from pyvallocation.optimization import InfeasibleOptimizationError
    kw = {} if label is None else dict(risk_label=label)
    U = lambda out, what, r=rv: _unpack(case, fr, W, ret, r, lab, out, what)
    j = U(fr.min_risk(**kw), "min_risk")
    case.check(rv[j] == rv.min(), "min_risk is not minimal")
    j = U(fr.max_return(), "max_return", risk)
    case.check(ret[j] == ret.max(), "max_return is not maximal")

    lim = _limit(case, rv)
    ok = [i for i in range(m) if rv[i] <= lim]
    if ok:
        j = U(fr.at_risk(lim, **kw), "at_risk")
        case.check(j in ok, f"at_risk({lim}) exceeds the limit")
        case.check(ret[j] == max(ret[i] for i in ok), f"at_risk({lim}) does not maximise the return")
    else:
        case.raises(lambda: fr.at_risk(lim, **kw), f"at_risk({lim}) with nothing admissible", InfeasibleOptimizationError)
    flo = _limit(case, ret)
    ok = [i for i in range(m) if ret[i] >= flo]
    if ok:
        j = U(fr.at_return(flo, **kw), "at_return")
        case.check(j in ok, f"at_return({flo}) misses the floor")
        case.check(rv[j] == min(rv[i] for i in ok), f"at_return({flo}) does not minimise the risk")
    else:
        case.raises(lambda: fr.at_return(flo, **kw), f"at_return({flo}) with nothing admissible", InfeasibleOptimizationError)
    t = _limit(case, rv)
    j = U(fr.closest_risk(t, **kw), "closest_risk")
    case.check(abs(rv[j] - t) <= np.min(np.abs(rv - t)), f"closest_risk({t}) is not nearest")

    rf = case.float(-0.3, 0.3)
    if np.all(risk > 1e-3):
        j = U(fr.tangency(rf), "tangency", risk)
        sr = (ret - rf) / risk
        case.check(sr[j] >= sr.max() - 1e-12 * (1 + abs(sr.max())), f"tangency({rf}) does not maximise the ratio", ratios=sr)
    zero = pv.PortfolioFrontier(weights=W, returns=ret, risks=np.zeros(m), risk_measure="Primary")
    case.raises(lambda: zero.tangency(rf), "tangency on an all-zero-risk frontier", InfeasibleOptimizationError)

    # percentile ranks: 0 = least, 1 = greatest risk, evenly spaced
    pr = np.asarray(fr.risk_percentiles(**kw), float)
    case.close(np.sort(pr), np.linspace(0, 1, m) if m > 1 else [0.0], "percentile ranks", atol=1e-12)
    for a in range(m):
        for b in range(m):
            if rv[a] < rv[b]:
                case.check(pr[a] < pr[b], "percentile order contradicts the risks", ranks=pr)
    q = case.choice([0.0, 0.25, 0.5, 0.75, 1.0]) if case.bool() else case.float(0, 1)
    want = np.min(np.abs(pr - q))
    idx = fr.index_at_risk_percentile(q, **kw)
    case.check(abs(pr[idx] - q) <= want + 1e-12, f"index_at_risk_percentile({q}) is not nearest", ranks=pr, got=idx)
    j = U(fr.at_percentile(q, **kw), "at_percentile")
    case.check(abs(pr[j] - q) <= want + 1e-12, f"at_percentile({q}) is not nearest", ranks=pr)
    q100 = q * 100 if case.chance(0.7) else case.choice([1.01, 1.5, 2.0, 99.9, 100.0])
    q = q100 / 100
    want = np.min(np.abs(pr - q))
    if q100 > 1.0:
        j2 = U(fr.at_percentile(q100, **kw), "at_percentile (percent)")
        case.check(abs(pr[j2] - q) <= want + 1e-9, f"at_percentile({q100}) is not the {q100}th percentile", ranks=pr)
        idx2 = fr.index_at_risk_percentile(q100, **kw)
        case.check(abs(pr[idx2] - q) <= want + 1e-9, f"index_at_risk_percentile({q100}) is not the {q100}th percentile")
    bad = case.choice([-0.01, -5.0, 100.5, 1e6])
    case.raises(lambda: fr.at_percentile(bad, **kw), f"percentile {bad}", ValueError)
    case.check(fr.available_risk_measures() == ["Primary"] + list(alts), "available risk measures")
    for f in (lambda: fr.min_risk(risk_label="nope"), lambda: fr.at_risk(9.0, risk_label="nope"), lambda: fr.at_return(-9.0, risk_label="nope"),
              lambda: fr.closest_risk(0.1, risk_label="nope"), lambda: fr.at_percentile(0.5, risk_label="nope"),
              lambda: fr.risk_percentiles(risk_label="nope"), lambda: fr.index_at_risk_percentile(0.5, risk_label="nope")):
        case.raises(f, "unknown risk label", (KeyError, ValueError))
    case.nontrivial(m >= 3)


@facet("C12", quick=3000, rule="drawn frontier, drawn column selection (order, repeats) and labels; non-trivial = proper sub-selection or custom labels")
def exports_hold_exactly_the_columns(case):
    pv, fr, W, ret, risk, alts, lab, label, rv = _frontier(case)
    n, m = W.shape
    sel = None if case.chance(0.3) else [case.int(0, m - 1) for _ in range(case.int(1, 5))]
    arg = sel if sel is None else case.choice([sel, tuple(sel), np.array(sel)])
    if sel is not None and case.chance(0.2):
        arg = iter(sel)
    k = m if sel is None else len(sel)
    cols = list(range(m)) if sel is None else sel
    cl = [f"p{i}" for i in range(k)] if case.bool() else None
    df = fr.to_frame(arg, column_labels=cl)
    case.note(sel=sel, labels=cl)
    case.check(df.shape == (n, k) and np.array_equal(df.to_numpy(), W[:, cols]), "to_frame values", got=df)
    case.check(list(df.columns) == (cl if cl is not None else cols), "to_frame column labels", got=list(df.columns))
    case.check(list(df.index) == list(lab if lab else range(n)), "to_frame row labels")
    s = fr.to_samples(sel)
    case.check(np.array_equal(s.to_numpy(), W[:, cols]) and list(s.index) == list(df.index), "to_samples frame")
    X, nm = fr.to_samples(sel, as_frame=False)
    case.check(np.array_equal(X, W[:, cols]), "to_samples array")
    case.check((nm is None) == (lab is None) and (nm is None or list(nm) == list(lab)), "to_samples names")
    X += 1.0
    df.iloc[:, :] = 7.0
    case.check(np.array_equal(fr.weights, W), "editing an export changes the frontier")
    case.raises(lambda: fr.to_frame(column_labels=["x"] * (m + 1)), "wrong number of column labels", ValueError)
    case.raises(lambda: fr.to_frame([m]), "column out of range", (IndexError, KeyError, ValueError))
    case.raises(lambda: pv.PortfolioFrontier(weights=W, returns=ret[:-1], risks=risk, risk_measure="x"), "returns length", ValueError)
    case.raises(lambda: pv.PortfolioFrontier(weights=W, returns=ret, risks=np.r_[risk, 1.0], risk_measure="x"), "risks length", ValueError)
    case.raises(lambda: pv.PortfolioFrontier(weights=W, returns=ret, risks=risk, risk_measure="x", asset_names=["a"] * (n + 1)), "names length", ValueError)
    case.raises(lambda: pv.PortfolioFrontier(weights=W, returns=ret, risks=risk, risk_measure="x", alternate_risks={"a": np.r_[risk, 0.0]}), "alternate length", ValueError)
    case.nontrivial(cl is not None or sel is not None)


@facet("C12", quick=600, rule="selected column discretised: equals discretising that column's weights by hand")
def discrete_allocation_of_column(case):
    pv = lib()
    n, m = case.size(1, 4), case.size(1, 4)
    W = np.column_stack([np.abs(case.unit(n)) + 0.01 for _ in range(m)])
    W /= W.sum(axis=0)
    lab = names(case, n) if case.bool() else None
    fr = pv.PortfolioFrontier(weights=W, returns=np.zeros(m), risks=np.ones(m), risk_measure="x", asset_names=lab)
    j = case.int(0, m - 1)
    keys = lab or [f"Asset_{i}" for i in range(n)]
    px = pd.Series(np.round(case.uniform(5, 300, n), 2), index=keys)
    tot = float(np.round(case.float(500, 5000), 2))
    perm = case.perm(n)
    meth = case.choice(["greedy", "greedy", "milp"]) if n <= 3 else "greedy"
    kw = dict(lot_sizes={k: case.int(1, 3) for k in keys}) if case.bool() else {}
    case.note(W=W, column=j, prices=px, total=tot, method=meth, **kw)
    a = fr.as_discrete_allocation(j, px.iloc[perm], tot, method=meth, **kw)
    b = pv.discretize_weights(weights=pd.Series(W[:, j], index=keys), latest_prices=px, total_value=tot, method=meth, **kw)
    case.check(dict(a.shares) == dict(b.shares), "shares differ", got=dict(a.shares), want=dict(b.shares))
    case.close(a.leftover_cash, b.leftover_cash, "leftover cash")
    case.raises(lambda: fr.as_discrete_allocation(case.choice([-1, m, m + 3]), px, tot), "column out of range", IndexError)
    case.nontrivial(m > 1 and n > 1)
