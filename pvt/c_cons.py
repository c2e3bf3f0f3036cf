"""C09: constraint specifications."""
import numpy as np
from .core import facet
from .c_mv import lib

Q = 64.0            # every number is a multiple of 1/64: all sums and comparisons are exact


def _q(case, lo, hi):
    return case.int(int(lo * Q), int(hi * Q)) / Q


def _spec_and_vector(case):
    n = case.size(1, 6)
    w = np.array([_q(case, -0.5, 1.0) for _ in range(n)])
    if case.chance(0.7):
        w = np.abs(w)
    # slack is usually >= 0; one constraint is sometimes violated by exactly one grid step
    sl = lambda: (case.choice([0, 0, 1, 4, 20]) if case.chance(0.9) else -case.choice([1, 2, 9])) / Q
    spec = {}
    if case.chance(0.4):
        spec["long_only"] = case.bool()
    tot = float(w.sum())
    k = case.int(0, 3)
    if k == 1:
        spec["total_weight"] = tot + (0 if case.chance(0.85) else case.choice([-1, 1]) / Q)
    elif k == 2:
        spec["total_weight"] = None
    elif k == 3 and case.chance(0.9):          # default budget of one: make the vector satisfy it
        w[case.int(0, n - 1)] += 1.0 - tot

    def pair(lo, hi):
        a, b = lo - sl(), hi + sl()
        if a > b:
            a, b = b, a
        m = case.int(0, 9)
        a = None if m == 8 else a
        b = None if m == 9 else b
        if case.chance(0.1) and a is not None:
            a = int(np.floor(a))
        return (a, b)
    kind = case.choice(["none", "scalar", "seq", "array", "dict"])
    if kind == "scalar":
        spec["bounds"] = pair(w.min(), w.max())
    elif kind == "seq":
        spec["bounds"] = [pair(x, x) for x in w]
        if case.bool():
            spec["bounds"] = [list(p) for p in spec["bounds"]]
    elif kind == "array":
        spec["bounds"] = np.array([[x - abs(sl()), x + abs(sl())] for x in w])
    elif kind == "dict":
        keys = [int(i) for i in case.perm(n)[: case.int(0, n)]]
        spec["bounds"] = {i: pair(w[i], w[i]) for i in keys}
    if n > 1 and case.chance(0.5):
        rb = []
        for _ in range(case.int(1, 3)):
            i = case.int(0, n - 1)
            j = (i + case.int(1, n - 1)) % n
            rb.append((i, j, float(w[i] - w[j] + sl())))
        spec["relative_bounds"] = rb
    if case.chance(0.5):
        gc = {}
        for name in ["A", "B"][: case.int(1, 2)]:
            idx = [int(x) for x in case.perm(n)[: case.int(1, n)]]
            s = float(w[idx].sum())
            a, b = s - sl(), s + sl()
            if case.chance(0.1):
                idx = idx + [idx[case.int(0, len(idx) - 1)]]           # naming a member twice does not count it twice
            gc[name] = (idx if case.bool() else tuple(idx), min(a, b), max(a, b))
        spec["group_constraints"] = gc
    for key in ("additional_G_h", "additional_A_b"):
        if case.chance(0.35):
            rows = []
            for _ in range(case.int(1, 2)):
                r = [case.int(-4, 4) for _ in range(n)]
                v = float(np.dot(r, w))
                v += sl() if key == "additional_G_h" else (0 if case.chance(0.9) else 1 / Q)
                rows.append((np.array(r, float) if case.bool() else r, v))
            spec[key] = rows
    return n, w, spec


def accepts(n, w, spec):
    """The specification read literally."""
    why = []
    if spec.get("long_only", True) and np.any(w < 0):
        why.append("long_only")
    tw = spec.get("total_weight", 1.0)
    if tw is not None and w.sum() != tw:
        why.append("total_weight")
    bd = spec.get("bounds")
    if bd is not None:
        per = bd.items() if isinstance(bd, dict) else ([(i, bd) for i in range(n)] if isinstance(bd, tuple) else enumerate(bd))
        for i, (lo, hi) in per:
            if (lo is not None and w[i] < lo) or (hi is not None and w[i] > hi):
                why.append(f"bounds[{i}]")
    for i, j, k in spec.get("relative_bounds") or []:
        if w[i] - w[j] > k:
            why.append(f"relative({i},{j})")
    for g, (idx, lo, hi) in (spec.get("group_constraints") or {}).items():
        s = w[sorted(set(idx))].sum()
        if s < lo or s > hi:
            why.append(f"group {g}")
    for r, v in spec.get("additional_G_h") or []:
        if np.dot(r, w) > v:
            why.append("additional_G_h")
    for r, v in spec.get("additional_A_b") or []:
        if np.dot(r, w) != v:
            why.append("additional_A_b")
    return why


def _mat_accepts(n, M, w):
    G, h, A, b = M
    ok = True
    if G is not None:
        G, h = np.asarray(G, float), np.asarray(h, float)
        assert G.shape == (len(h), n), (G.shape, h.shape)
        ok &= bool(np.all(G @ w <= h))
    if A is not None:
        A, b = np.asarray(A, float), np.asarray(b, float)
        assert A.shape == (len(b), n)
        ok &= bool(np.all(A @ w == b))
    return ok


def _kw(spec):
    return {k: v for k, v in spec.items()}


@facet("C09", quick=9000, rule="drawn specification (all kinds) around a drawn vector on a 1/64 grid, each limit touching, slack or violated by one step; exact comparison with a literal reading; non-trivial = >=2 kinds of constraint")
def matrices_accept_iff_spec_does(case):
    pv = lib()
    from pyvallocation.utils.constraints import build_G_h_A_b
    n, w, spec = _spec_and_vector(case)
    case.note(n=n, w=w, spec={k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in spec.items()})
    forms = {
        "function": build_G_h_A_b(n, **_kw(spec)),
        "object": pv.Constraints(**_kw(spec)).to_matrices(n),
        "dict": pv.Constraints.from_dict(dict(spec)).to_matrices(n),
    }
    ref = forms["function"]
    for name, M in forms.items():
        for X, Y in zip(M, ref):
            case.check((X is None) == (Y is None) and (X is None or np.array_equal(X, Y)), f"{name} form differs from the function form")
    full = build_G_h_A_b(n, **_kw(spec), return_none_if_empty=False)
    for X, Y in zip(full, ref):
        if Y is None:
            case.check(X is not None and np.asarray(X).shape[0] == 0, "return_none_if_empty=False must give empty arrays")
        else:
            case.check(np.array_equal(X, Y), "return_none_if_empty changes the rows")
    for X, s in ((full[0], 2), (full[2], 2), (full[1], 1), (full[3], 1)):
        case.check(np.asarray(X).ndim == s, "matrix rank")
    # nearby vectors too: moves by one grid step along a coordinate or an exchange of two coordinates
    vs = [w]
    for _ in range(4):
        v = w.copy()
        i = case.int(0, n - 1)
        d = case.choice([-1, 1]) / Q
        v[i] += d
        if n > 1 and case.chance(0.7):
            v[(i + case.int(1, n - 1)) % n] -= d
        vs.append(v)
    n_ok = 0
    for v in vs:
        why = accepts(n, v, spec)
        got = _mat_accepts(n, ref, v)
        n_ok += not why
        case.check(got == (not why), f"matrices {'accept' if got else 'reject'} a vector the specification {'rejects: ' + ', '.join(why) if why else 'accepts'}", v=v)
    case.event("accepted", n_ok > 0)
    case.event("rejected", n_ok < len(vs))
    case.nontrivial(len(spec) >= 2)


@facet("C09", quick=1500, rule="one malformed entry (drawn kind) in an otherwise valid specification must raise")
def malformed_specs_rejected(case):
    pv = lib()
    n = case.size(2, 5)
    i = case.int(0, n - 1)
    nan, inf = float("nan"), float("inf")
    bad = case.choice([nan, inf, -inf])
    out = case.choice([n, n + 3, -1])
    lo, hi = 0.5, 0.25
    box = [(0.0, 1.0)] * n
    def seq(v):
        b = list(box)
        b[i] = v
        return b
    row = [1.0] * n
    opts = {
        "crossed scalar bounds": dict(bounds=(lo, hi)),
        "crossed bounds": dict(bounds=seq((lo, hi))),
        "crossed dict bounds": dict(bounds={i: (lo, hi)}),
        "nonfinite scalar": dict(bounds=(0.0, bad)),
        "nonfinite scalar low": dict(bounds=(bad, 1.0)),
        "nonfinite seq": dict(bounds=seq((bad, None))),
        "nonfinite seq high": dict(bounds=seq((None, bad))),
        "nonfinite dict": dict(bounds={i: (0.0, bad)}),
        "string bound": dict(bounds=(0.0, "1")),
        "string dict bound": dict(bounds={i: ("0", 1.0)}),
        "wrong length": dict(bounds=box[:-1] if case.bool() else box + [(0, 1)]),
        "triple": dict(bounds=(0.0, 0.5, 1.0)),
        "dict triple": dict(bounds={i: (0.0, 0.5, 1.0)}),
        "dict index": dict(bounds={out: (0.0, 1.0)}),
        "relative index": dict(relative_bounds=[(i, out, 0.1)]),
        "relative index 2": dict(relative_bounds=[(out, i, 0.1)]),
        "relative same": dict(relative_bounds=[(i, i, 0.1)]),
        "relative nonfinite": dict(relative_bounds=[(0, 1, bad)]),
        "relative pair": dict(relative_bounds=[(0, 1)]),
        "group index": dict(group_constraints={"g": ([i, out], 0.0, 1.0)}),
        "group crossed": dict(group_constraints={"g": ([i], lo, hi)}),
        "group nonfinite lo": dict(group_constraints={"g": ([i], bad, 1.0)}),
        "group nonfinite hi": dict(group_constraints={"g": ([i], 0.0, bad)}),
        "row length": dict(additional_G_h=[(row[:-1], 1.0)]),
        "row length eq": dict(additional_A_b=[(row + [1.0], 1.0)]),
        "rhs nonfinite": dict(additional_G_h=[(row, bad)]),
        "rhs nonfinite eq": dict(additional_A_b=[(row, bad)]),
        "row nonfinite": dict(additional_G_h=[(row[:-1] + [bad], 1.0)]),
        "row nonfinite eq": dict(additional_A_b=[(row[:-1] + [bad], 1.0)]),
        "total nonfinite": dict(total_weight=bad),
        "total string": dict(total_weight="1"),
    }
    k = case.choice(sorted(opts))
    spec = dict(opts[k])
    if case.bool() and "long_only" not in spec:
        spec["long_only"] = case.bool()
    if case.bool() and "relative_bounds" not in spec:
        spec["relative_bounds"] = [(0, 1, 0.5)]
    case.note(kind=k, n=n, spec=spec)
    case.event(k)
    E = (TypeError, ValueError, IndexError)
    case.raises(lambda: pv.Constraints.from_dict(dict(spec)).to_matrices(n), f"malformed specification ({k})", E)
    case.raises(lambda: pv.PortfolioWrapper.from_moments(np.zeros(n), np.eye(n), constraints=dict(spec)).variance_frontier(2),
                f"malformed specification ({k}) given to the wrapper", Exception)
    m = case.choice([0, -1, 2.5])
    case.raises(lambda: pv.Constraints().to_matrices(m), "non-positive or fractional asset count", E)


@facet("C09", quick=250, rule="wrapper shortcuts, dictionaries and Constraints objects give the same matrices and the same portfolios", min_nontrivial=0.1)
def forms_agree_in_wrapper(case):
    pv = lib()
    from .gen import moments, constraint_spec
    n = case.size(2, 5)
    mu, S = moments(case, n, hetero=False)
    spec, w0 = constraint_spec(case, n)
    t = float(np.min(mu)) - 0.5
    case.note(mu=mu, cov=S, spec=spec)
    C = pv.Constraints.from_dict(dict(spec))
    junk = dict(spec, not_a_constraint=3)
    W = [
        pv.PortfolioWrapper.from_moments(mu, S, constraints=dict(spec)),
        pv.PortfolioWrapper.from_moments(mu, S, constraints=C),
        pv.PortfolioWrapper.from_moments(mu, S, constraints=junk),
        pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu, cov=S), constraints=C),
    ]
    short = {k: v for k, v in spec.items() if k in ("long_only", "total_weight", "bounds")}
    if short == spec:
        W.append(pv.PortfolioWrapper.from_moments(mu, S, **short))
        W.append(pv.PortfolioWrapper(pv.AssetsDistribution(mu=mu, cov=S), **short))
    ref = C.to_matrices(n)
    base = W[0].min_variance_at_return(t)[0]
    for k, w in enumerate(W):
        for X, Y in zip((w.G, w.h, w.A, w.b), ref):
            case.check((X is None) == (Y is None) and (X is None or np.array_equal(X, Y)), f"form {k}: matrices differ")
        case.close(w.min_variance_at_return(t)[0], base, f"form {k}: portfolio differs", atol=1e-9)
    other = pv.PortfolioWrapper.from_moments(mu, S, bounds=(0.0, 1.0))
    for c in (dict(spec), C):
        case.close(other.min_variance_at_return(t, constraints=c)[0], base, "per-call constraints differ from constructor constraints", atol=1e-9)
    case.nontrivial(len(spec) >= 1)
