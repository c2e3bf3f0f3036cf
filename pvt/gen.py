"""Domain generators (sound by construction) and the independent reading of constraint specifications."""
from __future__ import annotations
import numpy as np
import pandas as pd

NAMES = ["SPY", "AGG", "GLD", "EEM", "TLT", "IEF", "VNQ", "HYG", "BIL", "EFA", "QQQ", "DBC"]


def names(case, n):
    """n unique labels in non-sorted order; sometimes integers that do not equal positions (or are a permutation of them)."""
    mode = case.int(0, 9)
    if mode == 8:
        return [int(i) for i in case.perm(n)]           # integers that look like positions but are not
    if mode >= 9:
        base = [10 * (n - i) + 1 for i in range(n)]
        return [base[i] for i in case.perm(n)]
    base = NAMES[:n] if n <= len(NAMES) else [f"A{i + 1}" for i in range(n)]
    return [base[i] for i in case.perm(n)]


def corr(case, n):
    mode = case.choice(["factor", "diag", "equi", "block"])
    if n == 1 or mode == "diag":
        return np.eye(n)
    if mode == "equi":
        lo = -0.8 / (n - 1)
        rho = case.float(lo, 0.9)
        return (1 - rho) * np.eye(n) + rho
    if mode == "block":
        rho = case.float(0.0, 0.9)
        k = case.int(1, n - 1)
        C = np.eye(n)
        C[:k, :k] = rho
        C[k:, k:] = rho
        C[np.arange(n), np.arange(n)] = 1.0
        p = case.perm(n)
        return C[np.ix_(p, p)]
    B = case.normal(n, 2)
    d = 0.15 + case.uniform(0, 1, n)
    S = B @ B.T + np.diag(d)
    s = np.sqrt(np.diag(S))
    return S / np.outer(s, s)


def moments(case, n, hetero=True):
    """Annual-scale (mu, Sigma), Sigma well conditioned enough for an interior-point solver."""
    C = corr(case, n)
    if hetero and case.chance(0.25):
        vol = np.exp(case.uniform(np.log(0.01), np.log(0.6), n))
    else:
        vol = case.uniform(0.05, 0.4, n)
    mode = case.int(0, 4)
    if mode == 4:
        mu = case.uniform(-0.1, 0.02, n)
    elif mode == 3 and n > 1:
        mu = np.round(case.uniform(-0.02, 0.15, n), 2)        # ties
    else:
        mu = case.uniform(-0.05, 0.2, n)
    return mu, np.outer(vol, vol) * C


def unit(case):
    """Unit of account of the returns handed to the library: annual, daily, basis points, percent.

    The oracles work on the numbers divided by this unit, so every absolute tolerance is relative to the data."""
    u = float(case.choice([1.0, 1.0, 1.0, 1 / 16, 0.01, 1e-3, 100.0]))
    case.event("other unit", u != 1.0)
    return u


def scenarios(case, T, n, allow_gain=True):
    """Return scenarios of varied shape: normal, coarse (ties), heavy tailed, all-gain."""
    mode = case.choice(["normal", "coarse", "heavy", "gain", "factor"] if allow_gain else ["normal", "coarse", "heavy", "factor"])
    z = case.normal(T, n)
    loc = case.uniform(-0.02, 0.04, n)
    scale = case.uniform(0.01, 0.08, n)
    if mode == "factor":
        f = case.normal(T, 1)
        R = loc + scale * (0.7 * f + 0.7 * z)
    elif mode == "coarse":
        R = np.round(loc + scale * z, 2)
    elif mode == "heavy":
        R = loc + scale * np.clip(np.sign(z) * np.abs(z) ** 2, -8, 8)
    elif mode == "gain":
        R = 0.01 + np.abs(loc) + scale * np.abs(z) * 0.5
    else:
        R = loc + scale * z
    return np.maximum(R, -0.9), mode


def probs(case, T, zeros=True):
    mode = case.choice(["uniform", "random", "decay", "spiky"])
    if mode == "uniform":
        p = np.ones(T)
    elif mode == "random":
        p = case.uniform(0.2, 1.0, T)
    elif mode == "decay":
        p = np.exp(-np.log(2) / case.float(2, 4 * T) * np.arange(T)[::-1])
    else:
        p = case.uniform(0.0, 1.0, T) ** 4 + 1e-3
    if zeros and T > 4 and case.chance(0.25):
        k = case.int(1, T // 3)
        p = p.copy()
        p[case.perm(T)[:k]] = 0.0
    return p / p.sum()


# ------------------------------------------------------------------ constraints
def simplex_point(case, n, floor=0.05):
    u = case.uniform(0.0, 1.0, n) + floor
    return u / u.sum()


def constraint_spec(case, n, *, rich=True, allow_short=True, total_free=True):
    """A feasible, bounded constraint specification and an interior witness."""
    spec = {}
    w = simplex_point(case, n)
    tot = 1.0
    if total_free and case.chance(0.3):
        tot = case.choice([0.5, 0.8, 1.3, 2.0] + ([0.0] if allow_short and n > 1 else []))
    w = w * tot
    short = allow_short and n > 1 and (tot == 0 or case.chance(0.3))
    if short:
        w = w + 0.0
        i = case.int(0, n - 1)
        j = (i + 1) % n
        shift = case.float(0.05, 0.4)
        w[i] -= shift
        w[j] += shift
        spec["long_only"] = False
    if tot != 1.0 or case.chance(0.2):
        spec["total_weight"] = tot
    kind = case.choice(["none", "scalar", "seq", "dict"]) if not short else case.choice(["scalar", "seq"])
    slack = lambda: case.float(0.05, 0.5)
    if kind == "scalar":
        lo = float(np.floor((w.min() - slack()) * 100) / 100)
        hi = float(np.ceil((w.max() + slack()) * 100) / 100)
        if not short:
            lo = max(lo, 0.0) if case.bool() else min(0.0, lo)
        spec["bounds"] = (lo, hi)
    elif kind == "seq":
        spec["bounds"] = [(float(w[i] - slack()), float(w[i] + slack())) for i in range(n)]
        if not short:
            spec["bounds"] = [(None if k % 3 == 1 else l, None if k % 3 == 2 else h) for k, (l, h) in enumerate(spec["bounds"])]
    elif kind == "dict":
        keys = sorted({case.int(0, n - 1) for _ in range(2)})
        spec["bounds"] = {k: (float(max(0.0, w[k] - slack())), float(w[k] + slack())) for k in keys}
    if rich and n > 1 and case.chance(0.3):
        i = case.int(0, n - 2)
        j = case.int(i + 1, n - 1)
        if case.bool():
            i, j = j, i
        spec["relative_bounds"] = [(i, j, float(w[i] - w[j] + case.float(0.02, 0.3)))]
    if rich and n > 2 and case.chance(0.3):
        k = case.int(1, n - 1)
        idx = [int(x) for x in case.perm(n)[:k]]
        s = float(w[idx].sum())
        lo = s - case.float(0.02, 0.2)
        hi = s + case.float(0.02, 0.2)
        spec["group_constraints"] = {"grp": (idx, lo, hi)}
    if rich and case.chance(0.15):
        g = np.round(case.unit(n), 2)
        spec["additional_G_h"] = [(g, float(g @ w + 0.05))]
    if rich and n > 3 and case.chance(0.1):
        a = np.zeros(n)
        a[0], a[1] = 1.0, -1.0
        spec["additional_A_b"] = [(a, float(a @ w))]
    return spec, w


class Poly:
    """{w : G w <= h, A w = b} built by reading the specification literally (independent of the library)."""

    def __init__(self, G, h, A, b):
        self.G, self.h, self.A, self.b = G, h, A, b

    @classmethod
    def from_spec(cls, n, spec):
        G, h, A, b = [], [], [], []
        e = np.eye(n)
        if spec.get("long_only", True):
            for i in range(n):
                G.append(-e[i]); h.append(0.0)
        bd = spec.get("bounds")
        pairs = {}
        if bd is not None:
            if isinstance(bd, dict):
                pairs = dict(bd)
            elif isinstance(bd, tuple) and len(bd) == 2 and all(x is None or np.isscalar(x) for x in bd):
                pairs = {i: bd for i in range(n)}
            else:
                pairs = dict(enumerate(bd))
        for i, (lo, hi) in pairs.items():
            if lo is not None:
                G.append(-e[i]); h.append(-lo)
            if hi is not None:
                G.append(e[i]); h.append(hi)
        for (i, j, k) in spec.get("relative_bounds") or []:
            G.append(e[i] - e[j]); h.append(k)
        for _, (idx, lo, hi) in (spec.get("group_constraints") or {}).items():
            r = np.zeros(n)
            r[list(idx)] = 1.0
            if hi is not None:
                G.append(r); h.append(hi)
            if lo is not None:
                G.append(-r); h.append(-lo)
        for r, v in spec.get("additional_G_h") or []:
            G.append(np.asarray(r, float)); h.append(v)
        tw = spec.get("total_weight", 1.0)
        if tw is not None:
            A.append(np.ones(n)); b.append(tw)
        for r, v in spec.get("additional_A_b") or []:
            A.append(np.asarray(r, float)); b.append(v)
        mk = lambda M: np.array(M, float).reshape(-1, n)
        return cls(mk(G), np.array(h, float), mk(A), np.array(b, float))

    def add_ge(self, row, v):
        return Poly(np.vstack([self.G, -np.asarray(row)[None]]), np.append(self.h, -v), self.A, self.b)

    def violation(self, w):
        v = 0.0
        if self.G.size:
            v = max(v, float(np.max(self.G @ w - self.h)))
        if self.A.size:
            v = max(v, float(np.max(np.abs(self.A @ w - self.b))))
        return v

    def lp(self, c):
        from scipy.optimize import linprog
        kw = dict(A_ub=self.G if self.G.size else None, b_ub=self.h if self.G.size else None,
                  A_eq=self.A if self.A.size else None, b_eq=self.b if self.A.size else None, bounds=(None, None))
        r = linprog(c, method="highs", **kw)
        if r.status != 0:                       # HiGHS presolve mislabels some feasible problems with tiny objectives
            r2 = linprog(c, method="highs", options=dict(presolve=False), **kw)
            r = r2 if r2.status == 0 else linprog(np.asarray(c) * 1e3, method="highs-ds", options=dict(presolve=False), **kw)
            if r2.status != 0 and r.status == 0:
                r.fun = r.fun / 1e3
        return r


def as_series(case, x, labels, flag=None):
    use = case.bool() if flag is None else flag
    return pd.Series(x, index=labels) if use else np.array(x)


def as_frame(x, labels, rows=None):
    return pd.DataFrame(x, index=labels if rows is None else rows, columns=labels)
