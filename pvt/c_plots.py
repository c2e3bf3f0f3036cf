"""C38: plots against the data they were given, read back from the matplotlib artists."""
import os
os.environ.setdefault("MPLBACKEND", "Agg")
import copy
import warnings
import re
import numpy as np
import pandas as pd
from .core import facet
from .gen import names
from .c_mv import lib

HL = {"min_risk": "Min Risk", "max_return": "Max Return"}


def _plt():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    warnings.simplefilter("ignore")
    plt.close("all")
    plt.rcParams["figure.max_open_warning"] = 0
    return plt


def _frontier(case, measure="Volatility", meta=False, alts=None):
    pv = lib()
    n, m = case.size(1, 5), case.size(1, 7)
    W = np.round(case.unit(n, m), 3)
    W[0] = np.arange(m) + 0.5 * np.abs(W[0])
    ret = case.uniform(-0.2, 0.4, m)
    risk = np.abs(case.uniform(0.0, 1.0, m)) + 0.01
    if case.chance(0.6):
        ret, risk = np.sort(ret), np.sort(risk)
    # no exact ties: every marker has one right position
    ret, risk = ret + 1e-6 * np.arange(m), risk + 1e-6 * np.arange(m)
    alts = ["CVaR"] if alts is None and case.bool() else (alts or [])
    al = {a: case.uniform(-0.5, 1.0, m) + 1e-6 * np.arange(m) for a in alts}
    lab = names(case, n) if case.chance(0.7) else None
    md = None
    if meta:
        lam = case.uniform(0, 3, m)
        if case.chance(0.3):
            lam = np.round(lam)
        md = [{"lambda": float(v), "tag": f"t{i}", "none": None} for i, v in enumerate(lam)]
    return pv.PortfolioFrontier(weights=W, returns=ret, risks=risk, risk_measure=measure, asset_names=lab, alternate_risks=al, metadata=md)


def _risk(fr, label):
    return fr.risks if label in (None, fr.risk_measure) else fr.alternate_risks[label]


def _frozen(case, frs, snap):
    for a, b in zip(frs, snap):
        case.check(np.array_equal(a.weights, b.weights) and np.array_equal(a.returns, b.returns) and np.array_equal(a.risks, b.risks)
                   and a.metadata == b.metadata and a.asset_names == b.asset_names and a.risk_measure == b.risk_measure
                   and set(a.alternate_risks) == set(b.alternate_risks)
                   and all(np.array_equal(a.alternate_risks[k], b.alternate_risks[k]) for k in b.alternate_risks), "plotting changed the frontier")


def _xy(line):
    return np.column_stack([np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)])


def _has_line(case, ax, x, y, what, style=None, count=1):
    want = np.column_stack([x, y])
    hits = [l for l in ax.lines if _xy(l).shape == want.shape and np.array_equal(_xy(l), want) and (style is None or l.get_linestyle() == style)]
    case.check(len(hits) >= count, f"{what}: no line with the frontier's coordinates", lines=[_xy(l) for l in ax.lines][:4], want=want)
    return hits[0]


def _points(ax):
    """(label, offsets) of every scatter collection."""
    return [(str(c.get_label()), np.asarray(c.get_offsets(), float)) for c in ax.collections]


def _want_mark(fr, marker, rv, rf):
    if marker == "min_risk":
        i = int(np.argmin(rv))
    elif marker == "max_return":
        i = int(np.argmax(fr.returns))
    else:
        i = int(np.argmax((fr.returns - rf) / rv))
    return i


def _axis_formats(case, ax, percent, which="xy"):
    for a in which:
        f = getattr(ax, f"{a}axis").get_major_formatter()
        txt = f(0.1234, 0) if percent else None
        if percent:
            case.check(str(txt) == "12.3%", f"{a} axis is not in percent", got=txt)
        else:
            case.check("%" not in str(f.format_data(0.1234)), f"{a} axis in percent unasked")


@facet("C38", quick=160, rule="1..3 drawn frontiers as single, list or mapping, labels, highlights, risk measures, overlays, node scatter, percent axes, metadata in labels: lines, marks, records and axis labels are read back from the artists", min_nontrivial=0.5)
def frontier_lines_and_marks(case):
    plt = _plt()
    from pyvallocation.plotting import plot_frontiers
    k = case.int(1, 3)
    alts = ["CVaR"] if case.bool() else []
    frs = [_frontier(case, case.choice(["Volatility", "CVaR (95%)"]), meta=case.bool(), alts=alts) for _ in range(k)]
    snap = copy.deepcopy(frs)
    form = case.choice(["list", "mapping", "single"] if k == 1 else ["list", "mapping"])
    labs = [f"L{i}" for i in range(k)] if form == "mapping" or case.bool() else None
    rl = case.choice([None, "CVaR"]) if alts else None
    hi = [h for h in ("min_risk", "max_return", "tangency") if case.bool()]
    if rl == "CVaR" and "tangency" in hi:
        hi.remove("tangency")
    rf = case.float(-0.1, 0.1) if "tangency" in hi else None
    over = ["CVaR", "missing"] if alts and case.bool() else None
    dots, pct, leg = case.bool(), case.bool(), case.bool()
    md = case.choice([None, ("lambda",), ("tag", "none", "absent")])
    arg = frs[0] if form == "single" else frs if form == "list" else dict(zip(labs, frs))
    kw = dict(labels=labs) if labs and form != "mapping" else {}
    case.note(form=form, labels=labs, risk_label=rl, highlight=hi, rf=rf, overlay=over, points=dots, percent=pct, metadata=md, n=[f.weights.shape for f in frs])
    own = case.bool()
    ax0 = plt.subplots()[1] if own else None
    ax = plot_frontiers(arg, ax=ax0, highlight=hi, risk_free_rate=rf, legend=leg, show_points=dots, percent_axes=pct, overlay_risk_labels=over,
                        risk_label=rl, highlight_metadata_keys=md, **kw)
    case.check(ax0 is None or ax is ax0, "given axis not used")
    want_lines = k * (1 + (1 if over else 0))
    case.check(len(ax.lines) == want_lines, "number of lines", got=len(ax.lines), want=want_lines)
    recs = list(ax._frontier_highlights)
    case.check(len(recs) == k * len(hi), "number of highlight records", got=len(recs))
    pts = _points(ax)
    case.check(len(pts) == k * (len(hi) + dots), "number of drawn marks", got=len(pts))
    pos = 0
    leglabs = []
    for i, fr in enumerate(frs):
        rv = _risk(fr, rl)
        lab = labs[i] if labs else (rl or fr.risk_measure)
        line = ax.lines[i * (1 + (1 if over else 0))]
        case.check(np.array_equal(_xy(line), np.column_stack([rv, fr.returns])), "frontier line is not its risks and returns", got=_xy(line), want=np.column_stack([rv, fr.returns]))
        case.check(line.get_label() == lab, "line label", got=line.get_label(), want=lab)
        leglabs.append(lab)
        if over:
            o = ax.lines[i * 2 + 1]
            case.check(np.array_equal(_xy(o), np.column_stack([fr.alternate_risks["CVaR"], fr.returns])) and o.get_linestyle() == "--", "overlay line")
        if dots:
            case.check(np.array_equal(pts[pos][1], np.column_stack([rv, fr.returns])), "node scatter")
            pos += 1
        for h in hi:
            j = _want_mark(fr, h, rv, rf)
            rec = recs[i * len(hi) + hi.index(h)]
            name = HL.get(h) or f"Tangency (rf={rf:.2%})"
            case.check(rec["index"] == j and rec["risk"] == rv[j] and rec["return"] == fr.returns[j] and rec["type"] == name and rec["frontier"] == lab,
                       "highlight record", got={a: rec[a] for a in ("index", "risk", "return", "type", "frontier")}, want=(j, rv[j], fr.returns[j], name))
            case.check(np.array_equal(np.asarray(rec["weights"], float), fr.weights[:, j]), "highlight weights")
            case.check(list(rec["weights"].index) == list(fr.asset_names or range(len(fr.weights))), "highlight weight labels")
            case.check(rec["metadata"] == (fr.metadata[j] if fr.metadata else None), "highlight metadata")
            case.check(np.array_equal(pts[pos][1], [[rv[j], fr.returns[j]]]), "mark is not at the portfolio's coordinates", got=pts[pos][1], want=(rv[j], fr.returns[j]))
            txt = f"{lab} - {name}"
            if md and fr.metadata:
                txt += f" (lambda={fr.metadata[j]['lambda']:.4f})" if md == ("lambda",) else f" (tag={fr.metadata[j]['tag']})"
            case.check(pts[pos][0] == txt, "mark label", got=pts[pos][0], want=txt)
            leglabs.append(txt)
            pos += 1
            if rl is None:
                sel = fr.min_risk() if h == "min_risk" else fr.max_return() if h == "max_return" else fr.tangency(rf)
                case.check(sel[1] == rec["return"] and sel[2] == rec["risk"], "mark differs from the selector's portfolio")
    case.check(ax.get_ylabel() == "Expected Return", "return axis label")
    ms = {f.risk_measure for f in frs}
    case.check(ax.get_xlabel() == (rl or (ms.pop() if len(ms) == 1 else "Risk")), "risk axis label", got=ax.get_xlabel())
    lg = ax.get_legend()
    case.check((lg is not None) == leg, "legend presence")
    if leg:
        shown = {t.get_text() for t in lg.get_texts()}
        case.check(set(leglabs) <= shown, "legend misses an entry", shown=shown, want=leglabs)
    _axis_formats(case, ax, pct)
    _frozen(case, frs, snap)
    plt.close("all")
    case.event("highlights", len(hi))
    case.nontrivial(max(f.weights.shape[1] for f in frs) >= 2)


@facet("C38", quick=60, rule="grids of 1..5 frontiers with repeated labels and measures, grouping functions, column counts and legend policies: every frontier is drawn once, in its group's panel", min_nontrivial=0.5)
def grids_draw_every_frontier(case):
    plt = _plt()
    from pyvallocation.plotting import plot_frontiers_grid
    k = case.int(1, 5)
    frs = [_frontier(case, case.choice(["Volatility", "CVaR"]), alts=[]) for _ in range(k)]
    snap = copy.deepcopy(frs)
    labs = [case.choice(["a", "b", f"c{i}"]) for i in range(k)] if case.bool() else None
    by = case.choice([None, "label", "size", "one"])
    fn = {None: None, "label": lambda l, f: l or "none", "size": lambda l, f: f.weights.shape[1], "one": lambda l, f: "all"}[by]
    cols = case.choice([None, 1, 2, 3])
    pol = case.choice(["auto", "all", "each", "none"])
    leg = case.bool()
    hi = ("min_risk",) if case.bool() else ()
    case.note(k=k, labels=labs, by=by, cols=cols, policy=pol, legend=leg, measures=[f.risk_measure for f in frs])
    fig, axes = plot_frontiers_grid(frs, labels=labs, by=fn, cols=cols, legend_policy=pol, legend=leg, highlight=hi)
    groups = {}
    for i, f in enumerate(frs):
        l = labs[i] if labs else None
        groups.setdefault(str(fn(l, f)) if fn else f.risk_measure, []).append((l or f.risk_measure, f))
    used = axes[: len(groups)]
    case.check(len(axes) >= len(groups), "panels missing")
    case.check([a.get_title() for a in used] == list(groups), "panel titles", got=[a.get_title() for a in used], want=list(groups))
    for a, (g, mem) in zip(used, groups.items()):
        case.check(len(a.lines) == len(mem), f"panel {g} draws {len(a.lines)} of {len(mem)} frontiers", labels=[l.get_label() for l in a.lines])
        for line, (l, f) in zip(a.lines, mem):
            case.check(np.array_equal(_xy(line), np.column_stack([f.risks, f.returns])) and line.get_label() == l, "panel line", got=(line.get_label(), _xy(line)), want=l)
        case.check(len(a.collections) == len(mem) * len(hi), "panel marks")
        show = leg and (pol in ("all", "each") or pol == "auto" and len(groups) == 1)
        case.check((a.get_legend() is not None) == bool(show), "panel legend", policy=pol)
    for a in axes[len(groups):]:
        case.check(not a.axison, "unused panel is shown")
    _frozen(case, frs, snap)
    plt.close("all")
    case.event("groups", len(groups))
    case.nontrivial(k >= 2)


@facet("C38", quick=120, rule="weights series and tables, horizontal and vertical, stacked, top-n, percent or plain: bar lengths and asset labels read back", min_nontrivial=0.5)
def weight_bars(case):
    plt = _plt()
    from pyvallocation.plotting import plot_weights
    n = case.size(1, 6)
    lab = [str(a) for a in names(case, n)]
    kind = case.choice(["barh", "bar"])
    pct = case.bool()
    own = plt.subplots()[1] if case.bool() else None
    title = case.choice([None, "W"])
    if case.chance(0.65):
        w = pd.Series(np.round(case.unit(n), 4) + 1e-5 * np.arange(n), index=lab)
        top = case.choice([None, 1, n, n + 2, case.int(1, n)])
        w0 = w.copy()
        case.note(kind=kind, percent=pct, weights=w, top=top)
        ax = plot_weights(w, ax=own, top_n=top, kind=kind, percent_axes=pct, title=title)
        case.check(w.equals(w0), "weights changed")
        keep = w.sort_values(ascending=False)
        keep = keep if top is None else keep.iloc[:top]
        fig = ax.figure
        fig.canvas.draw()
        ticks = [t.get_text() for t in (ax.get_yticklabels() if kind == "barh" else ax.get_xticklabels())]
        bars = ax.containers[0].patches
        vals = [b.get_width() if kind == "barh" else b.get_height() for b in bars]
        # position -> label by the tick at the bar's centre
        centre = [b.get_y() + b.get_height() / 2 if kind == "barh" else b.get_x() + b.get_width() / 2 for b in bars]
        case.check(len(bars) == len(keep) and len(ticks) == len(keep), "number of bars", got=len(bars), ticks=ticks)
        got = {ticks[int(round(c))]: v for c, v in zip(centre, vals)}
        case.check(set(got) == set(keep.index) and all(abs(got[a] - keep[a]) <= 1e-12 for a in keep.index), "bars do not show the weights by asset", got=got, want=keep)
        if kind == "barh":
            case.check(np.all(np.diff(vals) >= 0), "bars not ordered")
    else:
        k = case.int(1, 3)
        D = pd.DataFrame(np.round(case.unit(n, k), 4), index=lab, columns=[f"p{j}" for j in range(k)])
        st = case.bool()
        if st:
            D = D.abs()
        D0 = D.copy()
        case.note(kind=kind, percent=pct, table=D, stacked=st)
        ax = plot_weights(D, ax=own, kind=kind, percent_axes=pct, stacked=st, title=title)
        case.check(D.equals(D0), "weights changed")
        ax.figure.canvas.draw()
        ticks = [t.get_text() for t in (ax.get_yticklabels() if kind == "barh" else ax.get_xticklabels())]
        case.check(ticks == lab, "asset labels", got=ticks, want=lab)
        case.check(len(ax.containers) == k, "number of bar groups")
        for j, c in enumerate(ax.containers):
            vals = [b.get_width() if kind == "barh" else b.get_height() for b in c.patches]
            case.check(np.allclose(vals, D.iloc[:, j], rtol=0, atol=1e-12), "table bars", got=vals, want=D.iloc[:, j])
            case.check(c.get_label() == D.columns[j], "bar group label")
    case.check(own is None or ax is own, "given axis not used")
    case.check(title is None or ax.get_title() == title, "title")
    f = (ax.xaxis if kind == "barh" else ax.yaxis).get_major_formatter()
    if pct:
        case.check(str(f(0.1234, 0)) == "12.3%", "value axis is not in percent")
    plt.close("all")
    case.event(kind)
    case.nontrivial(n >= 2)


@facet("C38", quick=80, rule="robust path, parameter impact and parameter surface of frontiers with metadata (ties, unsorted parameters, alternate measures, own axes)", min_nontrivial=0.4)
def parameter_plots(case):
    plt = _plt()
    from pyvallocation import plotting as P
    fr = _frontier(case, "Estimation Risk", meta=True, alts=["CVaR"])
    snap = copy.deepcopy(fr)
    lam = np.array([m["lambda"] for m in fr.metadata])
    rl = case.choice([None, "CVaR", "Estimation Risk"])
    rv = _risk(fr, rl)
    which = case.choice(["path", "impact", "surface"])
    pct = case.bool()
    case.note(which=which, risk_label=rl, values=lam, percent=pct)
    m = len(lam)
    if which == "path":
        over = case.choice([None, "CVaR", "missing"])
        line = case.bool()
        own = plt.subplots()[1] if case.bool() else None
        ax = P.plot_robust_path(fr, risk_label=rl, overlay_risk_label=over, percent_axes=pct, show_points=line, ax=own)
        sc = ax.collections[0]
        case.check(np.array_equal(np.asarray(sc.get_offsets(), float), np.column_stack([rv, fr.returns])), "robust path nodes")
        case.check(np.allclose(np.asarray(sc.get_array(), float), lam, rtol=0, atol=0), "node colours are not the parameter", got=sc.get_array(), want=lam)
        case.check(len(ax.lines) == int(line) + (over == "CVaR"), "lines", got=len(ax.lines))
        if line:
            _has_line(case, ax, rv, fr.returns, "robust path")
        if over == "CVaR":
            _has_line(case, ax, fr.alternate_risks["CVaR"], fr.returns, "overlay", "--")
        case.check(ax.get_xlabel() == (rl or fr.risk_measure), "risk axis label")
        case.check(own is None or ax is own, "given axis not used")
        _axis_formats(case, ax, pct)
    elif which == "impact":
        own = plt.subplots(1, 2)[1] if case.bool() else None
        own = tuple(own) if own is not None and case.bool() else own
        fig, axes = P.plot_param_impact(fr, risk_label=rl, percent_axes=pct, ax=own)
        case.check(own is None or (axes[0] is own[0] and axes[1] is own[1] and fig is own[0].figure), "given axes not used")
        o = np.argsort(lam, kind="stable")
        for a, v, l in zip(axes, (fr.returns, rv), ("Expected Return", rl or fr.risk_measure)):
            d = _xy(a.lines[0])
            case.check(len(a.lines) == 1 and np.all(np.diff(d[:, 0]) >= 0), "parameter not ascending")
            case.check(sorted(map(tuple, d)) == sorted(map(tuple, np.column_stack([lam, v]))), "parameter panel", got=d, want=np.column_stack([lam, v]))
            case.check(a.get_xlabel() == "lambda" and a.get_ylabel() == l, "panel labels", got=(a.get_xlabel(), a.get_ylabel()))
            _axis_formats(case, a, pct, "y")
        case.event("ties", len(set(lam)) < m)
    else:
        ax = P.plot_robust_surface(fr, risk_label=rl)
        x, y, z = ax.collections[0]._offsets3d
        case.check(np.array_equal(np.asarray(x, float), lam) and np.array_equal(np.asarray(y, float), rv) and np.array_equal(np.asarray(z, float), fr.returns), "surface points", got=(x, y, z))
        case.check((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()) == ("lambda", rl or fr.risk_measure, "Expected Return"), "axis labels")
    _frozen(case, [fr], [snap])
    plt.close("all")
    case.event(which)
    case.nontrivial(m >= 2)


@facet("C38", quick=100, rule="frontier reports for every selection key, risk measure, overlay and preset weights: the marked point and the bars are the selected portfolio's", min_nontrivial=0.4)
def frontier_reports(case):
    plt = _plt()
    from pyvallocation.plotting import plot_frontier_report
    fr = _frontier(case, alts=["CVaR"])
    snap = copy.deepcopy(fr)
    rl = case.choice([None, "CVaR", "Volatility"])
    rv = _risk(fr, rl)
    m = len(rv)
    sel = case.choice(["min_risk", "minimum_risk", "max_return", "maximum_return", "tangency", "max_sharpe", "sharpe", "risk_target", "return_target",
                       "risk_percentile", "percentile", "risk_match", "index", "column", "Min_Risk", "TANGENCY", "max_return_subject_to_risk", "min_risk_subject_to_return"])
    key = sel.lower()
    kw = {}
    if key in ("min_risk", "minimum_risk"):
        want = int(np.argmin(rv))
    elif key in ("max_return", "maximum_return"):
        want = int(np.argmax(fr.returns))
    elif key in ("tangency", "max_sharpe", "sharpe"):
        rf = 0.0
        if case.bool():
            rf = kw["risk_free_rate"] = case.float(-0.1, 0.1)
        want = int(np.argmax((fr.returns - rf) / fr.risks))
    elif key in ("risk_target", "max_return_subject_to_risk"):
        lim = kw["max_risk"] = float(rv[case.int(0, m - 1)]) + 1e-4
        ok = np.where(rv <= lim)[0]
        want = int(ok[np.argmax(fr.returns[ok])])
    elif key in ("return_target", "min_risk_subject_to_return"):
        lim = kw["min_return"] = float(fr.returns[case.int(0, m - 1)]) - 1e-4
        ok = np.where(fr.returns >= lim)[0]
        want = int(ok[np.argmin(rv[ok])])
    elif key in ("risk_percentile", "percentile"):
        pc = kw["percentile"] = case.choice([0.0, 0.5, 1.0]) if case.bool() else case.float(0, 1)
        want = None
    elif key == "risk_match":
        t = kw["target_risk"] = case.float(-0.2, 1.0)
        want = int(np.argmin(np.abs(rv - t)))
    else:
        want = kw["index"] = case.int(0, m - 1)
    pct, dots = case.bool(), case.bool()
    over = ["CVaR"] if case.bool() else None
    case.note(selection=sel, kwargs=dict(kw), risk_label=rl, returns=fr.returns, risks=rv, primary=fr.risks)
    kw0 = dict(kw)
    preset = case.chance(0.1)
    extra = {}
    if preset:
        key, want = "min_risk", None
        extra = dict(weights=pd.Series([0.25, 0.75], index=["x", "y"]))
        fig, (ax, aw) = plot_frontier_report(fr, risk_label=rl, show_points=dots, percent_axes=pct, overlay_risk_labels=over, **extra)
    else:
        fig, (ax, aw) = plot_frontier_report(fr, selection=sel, selection_kwargs=kw if kw or case.bool() else None, risk_label=rl, show_points=dots,
                                             percent_axes=pct, overlay_risk_labels=over)
    case.check(kw == kw0, "selection options changed")
    if want is None and not preset:
        w, r, k = fr.at_percentile(kw["percentile"], **({} if rl is None else dict(risk_label=rl)))
        want = [j for j in range(m) if np.array_equal(fr.weights[:, j], np.asarray(w, float))][0]
    case.check(np.array_equal(_xy(ax.lines[0]), np.column_stack([rv, fr.returns])), "report frontier line")
    case.check(len(ax.lines) == 1 + (over is not None), "report overlays")
    marks = [p for _, p in _points(ax) if not (dots and p.shape[0] == m and np.array_equal(p, np.column_stack([rv, fr.returns])))] if m > 1 else [p for _, p in _points(ax)][int(dots):]
    if want is not None:
        case.check(len(marks) == 1, "report marks", got=marks)
        case.check(np.array_equal(marks[0], [[rv[want], fr.returns[want]]]), "report marks another portfolio", got=marks[0], want=(rv[want], fr.returns[want]))
    fig.canvas.draw()
    ticks = [t.get_text() for t in aw.get_yticklabels()]
    bars = aw.containers[0].patches
    got = {ticks[int(round(b.get_y() + b.get_height() / 2))]: b.get_width() for b in bars}
    w = extra["weights"] if preset else pd.Series(fr.weights[:, want], index=[str(a) for a in (fr.asset_names or range(len(fr.weights)))])
    case.check(len(bars) == len(w) and set(got) == set(w.index) and all(abs(got[a] - w[a]) <= 1e-12 for a in w.index), "report bars are not the selected weights", got=got, want=w)
    _frozen(case, [fr], [snap])
    plt.close("all")
    case.event(key)
    case.nontrivial(m >= 2)


@facet("C38", quick=50, rule="3-D assumption plots of drawn moments, scenarios and mean uncertainty: centre, ellipsoid surface and scenario cloud satisfy the projected quadratic form", min_nontrivial=0.4)
def assumption_ellipsoids(case):
    plt = _plt()
    from pyvallocation.plotting import plot_assumptions_3d
    n = case.size(2, 5)
    A = case.normal(n, n) + 0.5 * np.eye(n)
    C = A @ A.T / n + 0.02 * np.diag(np.arange(1, n + 1))
    mu = case.unit(n)
    T = case.size(2, 40)
    X = case.normal(T, n) if case.bool() else None
    U = C / 10 + 0.01 * np.eye(n) if case.bool() else None
    sd, us = case.choice([1.0, 2.0]), case.choice([1.0, 0.5])
    mp = case.choice([2500, 5])
    case.note(n=n, mean=mu, cov=C, n_std=sd, uncertainty_std=us, scenarios=X is not None, uncertainty=U is not None)
    cp = (mu.copy(), C.copy(), None if X is None else X.copy(), None if U is None else U.copy())
    fig, axes = plot_assumptions_3d(mu, C, scenarios=X, uncertainty_cov=U, n_std=sd, uncertainty_std=us, max_points=mp)
    case.check(np.array_equal(mu, cp[0]) and np.array_equal(C, cp[1]) and (X is None or np.array_equal(X, cp[2])) and (U is None or np.array_equal(U, cp[3])), "inputs changed")
    case.check(len(axes) == 1 + (U is not None), "panels")
    e, V = np.linalg.eigh(C)
    o = np.argsort(e)[::-1]
    d = min(n, 3)
    share = np.r_[np.sort(e)[::-1] / e.sum(), np.zeros(3)][:3]
    for a, (M, s) in zip(axes, [(C, sd), (U, us)]):
        if n >= 3:
            txt = [a.get_xlabel(), a.get_ylabel(), a.get_zlabel()]
            pct = [float(re.search(r"([0-9.]+)%", t).group(1)) for t in txt if re.search(r"([0-9.]+)%", t)]
            case.check(len(pct) == 3 and np.allclose(pct, 100 * share, atol=0.5001), "explained shares on the axes", got=txt, want=share)
        scat = [c for c in a.collections if hasattr(c, "_offsets3d") and len(np.atleast_1d(c._offsets3d[0])) == 1]
        case.check(len(scat) == 1, "mean marker")
        c3 = np.array([float(np.ravel(v)[0]) for v in scat[0]._offsets3d])
        if n >= 3:
            P = V[:, o[:3]]
            case.check(np.allclose(np.abs(c3), np.abs(P.T @ mu), atol=1e-9), "mean is not at its principal coordinates", got=c3, want=P.T @ mu)
            sg = np.where(np.sign(c3) * np.sign(P.T @ mu) < 0, -1.0, 1.0)
            Q = (P * sg).T @ M @ (P * sg)
        else:
            case.check(np.allclose(c3[:n], mu) and np.all(c3[n:] == 0), "mean marker")
            Q = M
        surf = [c for c in a.collections if type(c).__name__ == "Poly3DCollection"][0]
        pts = np.array(surf._vec[:3]).T if hasattr(surf, "_vec") and surf._vec is not None else np.concatenate([np.asarray(f)[:, :3] for f in surf._faces])
        z = pts[:, :d] - c3[:d]
        if n >= 3 and np.any(np.abs(P.T @ mu) < 1e-6):
            continue                                     # sign of the projection cannot be read off
        q = np.einsum("ij,jk,ik->i", z, np.linalg.inv(Q), z)
        inside = q <= s * s * (1 + 1e-6)
        case.check(np.all(inside), "ellipsoid surface exceeds the requested radius", got=np.sqrt(q.max()), want=s)
        if n >= 3:
            case.check(np.all(np.abs(np.sqrt(q) - s) <= 1e-6 * s), "ellipsoid surface is not at the requested radius", got=(np.sqrt(q.min()), np.sqrt(q.max())), want=s)
        if X is not None and M is C:
            cloud = [c for c in a.collections if hasattr(c, "_offsets3d") and len(np.atleast_1d(c._offsets3d[0])) != 1]
            Y = X if T <= mp else X[np.linspace(0, T - 1, mp).astype(int)]
            if len(Y) > 1:
                got = np.column_stack([np.asarray(v, float) for v in cloud[0]._offsets3d])[:, :d]
                want = Y @ (P * sg) if n >= 3 else Y
                case.check(got.shape == want.shape and np.allclose(got, want, atol=1e-9), "scenario cloud", got=got[:3], want=want[:3])
    plt.close("all")
    case.nontrivial(n >= 3)


@facet("C38", quick=60, rule="requests that cannot be plotted (unknown highlight, tangency without rate, unknown risk measure, wrong label count, wrong type, missing parameter, unknown selection or policy) are refused", min_nontrivial=0.5)
def plot_requests_rejected(case):
    plt = _plt()
    from pyvallocation import plotting as P
    fr = _frontier(case, alts=[])
    kind = case.choice(["highlight", "tangency", "measure", "labels", "type", "mapping type", "param", "surface", "selection", "policy", "weights", "cov", "scenarios"])
    case.note(kind=kind)
    case.event(kind)
    f = {"highlight": lambda: P.plot_frontiers(fr, highlight=("best",)), "tangency": lambda: P.plot_frontiers(fr, highlight=("tangency",)),
         "measure": lambda: P.plot_frontiers(fr, risk_label="nope"), "labels": lambda: P.plot_frontiers([fr, fr], labels=["a"]),
         "type": lambda: P.plot_frontiers([fr, 3]), "mapping type": lambda: P.plot_frontiers({"a": None}),
         "param": lambda: P.plot_param_impact(fr), "surface": lambda: P.plot_robust_surface(fr), "selection": lambda: P.plot_frontier_report(fr, selection="best"),
         "policy": lambda: P.plot_frontiers_grid(fr, legend_policy="some"), "weights": lambda: P.plot_weights([0.5, 0.5]),
         "cov": lambda: P.plot_assumptions_3d(np.zeros(3), np.eye(2)), "scenarios": lambda: P.plot_assumptions_3d(np.zeros(3), np.eye(3), scenarios=np.zeros((4, 2)))}[kind]
    case.raises(f, f"unplottable request ({kind})", (ValueError, TypeError, KeyError))
    plt.close("all")
