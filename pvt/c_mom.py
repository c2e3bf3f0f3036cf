"""C21-C24: moment estimators."""
import math
import itertools
import numpy as np
import pandas as pd
from .core import facet
from .gen import moments, names, scenarios, probs, corr
from .c_mv import lib


def _returns(case, nmin=2, nmax=6, tmin=14, tmax=60, scale=True, few=False):
    """Returns with a factor structure, some heavy tails, at scales from daily bonds to annual equities."""
    n = case.size(nmin, nmax)
    T = case.int(3, max(n, 3)) if few else case.size(max(tmin, 3 * n), max(tmax, 4 * n))
    z = case.normal(T, n)
    if case.chance(0.3):
        z = np.sign(z) * np.minimum(np.abs(z) ** 1.8, 12)
    L = np.linalg.cholesky(corr(case, n) + 1e-9 * np.eye(n)) if n > 1 else np.eye(1)
    vol = np.exp(case.uniform(-1, 1, n)) if case.bool() else np.ones(n)
    s = case.choice([1.0, 0.1, 0.02, 0.005, 0.001]) if scale else 1.0
    X = (z @ L.T * vol + 0.2 * case.unit(n)) * s
    # never degenerate: an aperiodic ripple keeps every sample covariance of full rank
    X = X + s * 0.01 * np.sin(np.arange(1, T + 1)[:, None] * (1.7 + math.sqrt(2) * np.arange(n)))
    return X, n, T, s


def _wrapR(case, X, lab):
    return pd.DataFrame(X, columns=lab) if lab else (X.copy() if case.bool() else X.tolist() if False else X.copy())


def fsum_moments(R, p):
    """Weighted mean and covariance with correctly rounded sums, entry by entry."""
    T, n = R.shape
    mu = np.array([math.fsum(float(p[t]) * float(R[t, i]) for t in range(T)) for i in range(n)])
    S = np.array([[math.fsum(float(p[t]) * (float(R[t, i]) - mu[i]) * (float(R[t, j]) - mu[j]) for t in range(T)) for j in range(n)] for i in range(n)])
    return mu, S


# ------------------------------------------------------------------------------------- C21
@facet("C21", quick=1500, rule="drawn scenarios (normal, ties, heavy tails, factor) and probabilities incl. zeros, as arrays, frames and series (T may equal N); compared with correctly rounded sums; also through the distribution object")
def weighted_definitions(case):
    from pyvallocation.moments import estimate_sample_moments
    pv = lib()
    n = case.size(1, 6)
    T = case.choice([n, case.size(1, 40)])
    R, mode = scenarios(case, T, n)
    p = probs(case, T)
    lab = names(case, n) if case.bool() else None
    idx = case.choice([None, pd.date_range("2020-01-03", periods=T, freq="W")])
    A = pd.DataFrame(R, columns=lab, index=idx) if lab else R
    pm = case.choice(["array", "list", "series"])
    P = p if pm == "array" else list(p) if pm == "list" else pd.Series(p, index=idx)
    case.note(R=R, p=p, labels=lab, p_container=pm)
    route = case.choice(["function", "distribution", "wrapper"])
    if route == "function":
        mu, S = estimate_sample_moments(A, P)
        if lab:
            case.check(isinstance(mu, pd.Series) and list(mu.index) == lab and list(S.index) == lab and list(S.columns) == lab, "labels")
    else:
        scale = case.choice([1.0, 1.0, 4.0])
        pp = np.asarray(P, float) * scale if pm != "series" else P * scale
        if route == "distribution":
            d = pv.AssetsDistribution(scenarios=A, probabilities=pp)
        else:
            d = pv.PortfolioWrapper.from_scenarios(A, probabilities=pp).dist
        mu, S = d.mu, d.cov
        case.close(d.probabilities, p, "probabilities", rtol=1e-12, atol=1e-15)
        case.check((d.N, d.T) == (n, T) and list(d.asset_names or []) == list(lab or []), "shape and labels", got=(d.N, d.T, d.asset_names))
        case.check(np.array_equal(np.asarray(d.scenarios, float), R), "scenarios altered")
    em, eS = fsum_moments(R, p)
    case.close(mu, em, "weighted mean", rtol=1e-10, atol=1e-13)
    case.close(S, eS, "weighted covariance", rtol=1e-9, atol=1e-13)
    M = np.asarray(S, float)
    case.check(np.array_equal(M, M.T), "covariance not symmetric")
    case.check(np.linalg.eigvalsh(M).min() >= -1e-12, "covariance not positive semi-definite", eig=np.linalg.eigvalsh(M))
    case.event(route)
    case.event("T equals N", T == n)
    case.nontrivial(T >= 2 and np.ptp(R) > 0)


@facet("C21", quick=800, rule="scenario reordering, merged and split scenarios, zero-probability scenarios, affine maps and asset reordering", min_nontrivial=0.5)
def metamorphic(case):
    from pyvallocation.moments import estimate_sample_moments as est
    n, T = case.size(1, 5), case.size(2, 25)
    R, _ = scenarios(case, T, n)
    p = probs(case, T)
    mu, S = (np.asarray(x, float) for x in est(R, p))
    case.note(R=R, p=p)
    tol = dict(rtol=1e-9, atol=1e-12)
    rel = case.choice(["scenario order", "split", "zero", "affine", "assets", "units"])
    case.event(rel)
    if rel == "scenario order":
        o = case.perm(T)
        m2, S2, em, eS = *est(R[o], p[o]), mu, S
    elif rel == "split":
        t, f = case.int(0, T - 1), case.float(0.0, 1.0)
        q = np.append(p, p[t] * f)
        q[t] *= 1 - f
        m2, S2, em, eS = *est(np.vstack([R, R[t]]), q), mu, S
    elif rel == "zero":
        m2, S2, em, eS = *est(np.vstack([case.unit(1, n) * 50, R]), np.append(0.0, p)), mu, S
    elif rel == "affine":
        k = case.int(1, 4)
        B, a = case.unit(n, k), case.unit(k)
        m2, S2, em, eS = *est(R @ B + a, p), mu @ B + a, B.T @ S @ B
    elif rel == "units":                                 # exact change of units, down to returns of 1e-11
        u = 2.0 ** case.int(-34, 10)
        m2, S2 = (np.asarray(x, float) for x in est(R * u, p))
        big = max(np.abs(S).max(), 1e-12)
        case.check(np.abs(m2 / u - mu).max() <= 1e-12 * max(np.abs(R).max(), 1e-12), "mean in other units", got=m2, want=mu * u, unit=u)
        case.check(np.abs(S2 / u / u - S).max() <= 1e-9 * big + 2.1e-8 * (np.linalg.eigvalsh(S).min() < -1e-9), "covariance in other units", got=S2, want=S * u * u, unit=u)
        return
    else:
        o = case.perm(n)
        lab = names(case, n)
        m2, S2 = est(pd.DataFrame(R, columns=lab).iloc[:, o], p)
        em, eS = mu[o], S[np.ix_(o, o)]
        case.check(list(m2.index) == [lab[i] for i in o] == list(S2.columns), "labels after reordering")
    case.close(m2, em, f"mean under {rel}", **tol)
    case.close(S2, eS, f"covariance under {rel}", **tol)


@facet("C21", quick=200, rule="length mismatches, negative or unnormalised probabilities", min_nontrivial=0.5)
def invalid_probabilities(case):
    from pyvallocation.moments import estimate_sample_moments as est
    pv = lib()
    n, T = case.size(1, 4), case.size(3, 12)
    R, _ = scenarios(case, T, n)
    p = probs(case, T, zeros=False)
    kind = case.choice(["length", "negative", "sum", "nan", "zero sum"])
    case.event(kind)
    case.note(kind=kind)
    if kind == "length":
        q = np.append(p, 0.0) if case.bool() else p[:-1]
    elif kind == "negative":
        q = p.copy()
        d = p[0] + case.float(0.01, 0.5)
        q[0] -= d
        q[1] += d
    elif kind == "sum":
        q = p * case.choice([0.5, 1.5, 100.0])
    elif kind == "nan":
        q = p.copy()
        q[case.int(0, T - 1)] = np.nan
    else:
        q = np.zeros(T)
    case.raises(lambda: est(R, q), f"invalid probabilities ({kind})", ValueError)
    if kind != "sum":
        case.raises(lambda: pv.AssetsDistribution(scenarios=R, probabilities=q), f"distribution with invalid probabilities ({kind})", ValueError)


# ------------------------------------------------------------------------------------- C22
def _estimator(case, n, s):
    """(name, fn(R, factor), tolerance); factor rescales scale-dependent parameters."""
    from pyvallocation import moments as M
    name = case.choice(["lw", "lw_cc", "oas", "nls", "poet", "tyler", "ewma", "glasso", "sample"])
    if name == "sample":
        return name, lambda R, f=1.0: M.estimate_moments(R)[1], 1e-9
    if name in ("lw", "lw_cc"):
        tgt = "identity" if name == "lw" else "constant_correlation"

        def lw(R, f=1.0):
            X = np.asarray(R, float)
            S = np.cov(X, rowvar=False, ddof=0).reshape(X.shape[1], X.shape[1])
            if isinstance(R, pd.DataFrame):
                S = pd.DataFrame(S, index=R.columns, columns=R.columns)
            return M.shrink_covariance_ledoit_wolf(R, S, target=tgt)
        return name, lw, 1e-8
    if name == "oas":
        c = case.bool()
        return name, lambda R, f=1.0: M.shrink_covariance_oas(R, assume_centered=c), 1e-8
    if name == "nls":
        k = case.choice([0, 1])
        return name, lambda R, f=1.0: M.shrink_covariance_nls(R, dof_correction=k), 1e-5
    if name == "ewma":
        sp = case.choice([1, 5, 60, 252])
        return name, lambda R, f=1.0: M.covariance_ewma(R, span=sp), 1e-9
    if name == "poet":
        k = case.int(1, n)
        std = case.bool()
        th = case.choice(["auto", 0.0, 0.1])
        return name, lambda R, f=1.0: M.factor_covariance_poet(R, k=k, standardize=std, thresh=th if isinstance(th, str) or std else th * s * s * f * f), 1e-6
    if name == "tyler":
        sh = case.choice([0.0, 0.1, 0.5])
        return name, lambda R, f=1.0: M.robust_covariance_tyler(R, shrinkage=sh), 2e-4
    a = case.choice([0.02, 0.1, 0.4]) * s * s
    return name, lambda R, f=1.0: M.sparse_precision_glasso(R, alpha=a * f * f, assume_centered=False), 2e-3


def _eig_gap(X, std=True):
    Z = X - X.mean(0)
    if std:
        Z = Z / Z.std(axis=0, ddof=1)
    e = np.sort(np.linalg.eigvalsh(np.cov(Z, rowvar=False)))[::-1]
    return e


@facet("C22", quick=900, rule="drawn estimator, parameters, data scale and container; finite, symmetric, positive semi-definite, labelled; asset permutation and common rescaling commute with it")
def valid_and_equivariant(case):
    X, n, T, s = _returns(case)
    name, fn, tol = _estimator(case, n, s)
    lab = names(case, n) if case.chance(0.7) else None
    R = pd.DataFrame(X, columns=lab) if lab else X
    case.note(estimator=name, n=n, T=T, scale=s, labels=lab)
    case.event(name)
    S = fn(R)
    if lab:
        case.check(isinstance(S, pd.DataFrame) and list(S.index) == lab and list(S.columns) == lab, f"{name}: labels")
    M = np.asarray(S, float)
    case.check(M.shape == (n, n) and np.all(np.isfinite(M)), f"{name}: shape or non-finite", got=M)
    big = np.abs(M).max()
    case.check(np.abs(M - M.T).max() <= 1e-12 * max(big, 1e-30) + 1e-18, f"{name}: not symmetric", got=M)
    lo = np.linalg.eigvalsh(M).min()
    case.check(lo >= -1.01e-8, f"{name}: not positive semi-definite", eig=lo)
    case.check(np.all(np.diag(M) > 0), f"{name}: non-positive variance", got=M)
    if name == "poet" and lo < 1e-6 * s * s:            # may have been repaired: the absolute jitter is not equivariant
        case.nontrivial(False)
        return
    if name == "poet":                                   # a cut through (nearly) equal eigenvalues has no unique answer
        for std in (True, False):
            e = _eig_gap(X, std)
            if np.min(e[:-1] - e[1:]) < 1e-3 * e[0]:
                case.nontrivial(False)
                return
    o = case.perm(n)
    Sp = np.asarray(fn(R.iloc[:, o] if lab else X[:, o]), float)
    case.check(np.abs(Sp - M[np.ix_(o, o)]).max() <= tol * big, f"{name}: reordering assets changes the matrix", got=Sp, want=M[np.ix_(o, o)])
    f = case.choice([0.01, 0.1, 10.0, 100.0]) if name != "poet" else 10.0
    Sf = np.asarray(fn(R * f, f), float)
    case.check(np.abs(Sf / f ** 2 - M).max() <= tol * big + 3e-8 / min(f * f, 1.0) * (lo < 1e-7), f"{name}: rescaling returns does not rescale the matrix", got=Sf / f ** 2, want=M, factor=f)
    case.nontrivial(n >= 2)


@facet("C22", quick=500, rule="Ledoit-Wolf (both targets) vs the published intensity computed with loops, as a convex combination of sample covariance and target", min_nontrivial=0.4)
def ledoit_wolf_formula(case):
    from pyvallocation import moments as M
    X, n, T, s = _returns(case, 1, 6, 3, 40, few=case.chance(0.3))
    Z = X - X.mean(0)
    S = Z.T @ Z / T
    cc = case.bool()
    case.note(n=n, T=T, scale=s, target="constant_correlation" if cc else "identity", X=X)
    got = np.asarray(M.shrink_covariance_ledoit_wolf(X, S, target="constant_correlation" if cc else "identity"), float)
    sd = np.sqrt(np.diag(S))
    if cc:
        C = S / np.outer(sd, sd)
        rb = (C.sum() - n) / (n * (n - 1)) if n > 1 else 0.0
        F = rb * np.outer(sd, sd)
        F[np.diag_indices(n)] = np.diag(S)
    else:
        F = np.eye(n) * np.trace(S) / n
    gam = ((S - F) ** 2).sum()
    pi = sum(((np.outer(z, z) - S) ** 2) for z in Z) / T
    rho = 0.0
    if cc:
        rho = np.trace(pi)
        for i in range(n):
            for j in range(n):
                if i != j:
                    ti = np.mean((Z[:, i] ** 2 - S[i, i]) * (Z[:, i] * Z[:, j] - S[i, j]))
                    tj = np.mean((Z[:, j] ** 2 - S[j, j]) * (Z[:, i] * Z[:, j] - S[i, j]))
                    rho += rb / 2 * (sd[j] / sd[i] * ti + sd[i] / sd[j] * tj)
    dis = np.linalg.norm(S - F)
    if dis > 1e-7 * np.linalg.norm(S):
        d = float(np.clip((pi.sum() - rho) / gam / T, 0, 1))
        case.event("interior intensity", 0.001 < d < 0.999)
    else:
        d = 0.0
    want = d * F + (1 - d) * S
    tol = 1e-8 * np.abs(S).max()
    case.check(np.abs(got - want).max() <= tol + 2.1e-8 * (np.linalg.eigvalsh(want).min() < 0), "Ledoit-Wolf matrix", got=got, want=want, intensity=d)
    case.nontrivial(n > 1 and 0.001 < d)


@facet("C22", quick=500, rule="OAS vs Chen et al. (2010); EWMA vs its explicit weights; analytical nonlinear shrinkage vs Ledoit-Wolf (2020) computed with loops, means removed for every degrees-of-freedom correction", min_nontrivial=0.5)
def closed_forms(case):
    from pyvallocation import moments as M
    which = case.choice(["oas", "ewma", "nls"])
    X, n, T, s = _returns(case, 1 if which != "nls" else 2, 6, 2 if which != "nls" else 14, 60, few=which != "nls" and case.chance(0.3))
    lab = names(case, n) if case.bool() else None
    R = pd.DataFrame(X, columns=lab) if lab else X
    case.event(which)
    case.note(which=which, n=n, T=T, scale=s)
    if which == "oas":
        cen = case.bool()
        Z = X if cen else X - X.mean(0)
        S = Z.T @ Z / T
        tr, tr2 = np.trace(S), np.trace(S @ S)
        den = (T + 1 - 2 / n) * (tr2 - tr ** 2 / n)
        num = (1 - 2 / n) * tr2 + tr ** 2
        rho = 1.0 if n > 1 and (den <= 0 or num >= den) else (num / den if n > 1 else 0.0)
        want = (1 - rho) * S + rho * tr / n * np.eye(n)
        got = M.shrink_covariance_oas(R, assume_centered=cen)
        case.close(got, want, "OAS matrix", rtol=1e-7, atol=1e-9 * s * s)
        case.event("interior", 0 < rho < 1)
    elif which == "ewma":
        sp = case.choice([1, 2, 10, case.int(1, 300), case.float(1, 50)])
        lam = (sp - 1) / (sp + 1)
        w = np.array([(1 - lam) * lam ** (T - 1 - t) if t else lam ** (T - 1) for t in range(T)])
        got = M.covariance_ewma(R, span=sp)
        case.close(got, (X * w[:, None]).T @ X, "EWMA matrix", rtol=1e-9, atol=1e-12 * s * s)
    else:
        k = case.choice([0, 1, 2])
        got = np.asarray(M.shrink_covariance_nls(R, dof_correction=k), float)
        Z = X - X.mean(0)
        m = T - max(k, 1)                                # effective sample size
        lam, U = np.linalg.eigh(Z.T @ Z / m)
        hb, c = m ** (-1 / 3), n / m
        d = np.empty(n)
        for i in range(n):
            f = H = 0.0
            for j in range(n):
                x = (lam[i] - lam[j]) / (hb * lam[j])
                f += 3 / (4 * math.sqrt(5) * hb * lam[j]) * max(1 - x * x / 5, 0.0) / n
                lg = 0.0 if abs(abs(x) - math.sqrt(5)) < 1e-12 else 3 / (4 * math.sqrt(5) * math.pi) * (1 - x * x / 5) * math.log(abs((math.sqrt(5) - x) / (math.sqrt(5) + x)))
                H += (-3 * x / (10 * math.pi) + lg) / (hb * lam[j]) / n
            d[i] = lam[i] / ((math.pi * c * lam[i] * f) ** 2 + (1 - c - math.pi * c * lam[i] * H) ** 2)
        want = (U * d) @ U.T
        case.check(np.abs(got - want).max() <= 1e-6 * np.abs(want).max(), "analytical nonlinear shrinkage", got=got, want=want)


@facet("C22", quick=500, rule="POET vs eigen-decomposition plus soft-thresholded residual (explicit and automatic number of factors), including the returned loadings and scores", min_nontrivial=0.4)
def poet_formula(case):
    from pyvallocation import moments as M
    X, n, T, s = _returns(case, 1, 7, few=case.chance(0.25))
    lab = names(case, n) if case.bool() else None
    R = pd.DataFrame(X, columns=lab, index=pd.date_range("2021-01-01", periods=T)) if lab else X
    std = case.bool()
    Z = X - X.mean(0)
    sc = Z.std(axis=0, ddof=1) if std else np.ones(n)
    Y = Z / sc
    C = (Y.T @ Y) / (T - 1)
    e, V = np.linalg.eigh(C)
    e, V = e[::-1], V[:, ::-1]
    gaps = e[:-1] - e[1:]
    k = case.choice(["auto", case.int(1, n), n + 2])
    th = case.choice(["auto", 0.0, 0.2])
    tv = th if isinstance(th, str) else th * (1.0 if std else s * s)
    case.note(n=n, T=T, k=k, thresh=tv, standardize=std, eigenvalues=e)
    if k == "auto":
        if n <= 2:
            kk = 1
        else:
            i = int(np.argmax(gaps))
            if i == n - 2 or np.sort(gaps)[-2] > gaps[i] / 3:    # no dominating gap: the choice is not specified
                case.nontrivial(False)
                return
            kk = i + 1
    else:
        kk = min(k, n)
    if kk < n and gaps[kk - 1] < 1e-4 * e[0]:
        case.nontrivial(False)
        return
    low = (V[:, :kk] * e[:kk]) @ V[:, :kk].T
    res = C - low
    off = ~np.eye(n, dtype=bool)
    t = (np.median(np.abs(res[off])) * np.sqrt(np.log(max(n, 2)) / T) if n > 1 else 0.0) if tv == "auto" else tv
    sp = np.where(off, np.sign(res) * np.maximum(np.abs(res) - t, 0), res)
    want = (low + sp) * np.outer(sc, sc)
    got, B, F = M.factor_covariance_poet(R, k=k, thresh=tv, standardize=std, return_decomp=True)
    alone = M.factor_covariance_poet(R, k=k, thresh=tv, standardize=std)
    case.check(np.array_equal(np.asarray(got), np.asarray(alone)), "decomposition changes the covariance")
    big = np.abs(want).max()
    lo = np.linalg.eigvalsh(want).min()
    if lo > -0.9e-8:
        case.check(np.abs(np.asarray(got) - want).max() <= 1e-7 * big, "POET matrix", got=got, want=want)
    else:
        case.event("repaired")
        case.check(np.abs(np.asarray(got) - want - (-lo + 1e-8) * np.eye(n)).max() <= 1e-7 * big + 2e-8, "repaired POET matrix", got=got, want=want)
    Bv, Fv = np.asarray(B, float), np.asarray(F, float)
    case.check(Bv.shape == (n, kk) and Fv.shape == (T, kk), "loadings and scores shapes", got=(Bv.shape, Fv.shape))
    case.check(np.abs(Bv @ Bv.T - low * np.outer(sc, sc)).max() <= 1e-7 * big, "loadings do not reproduce the factor covariance")
    FtF = Fv.T @ Fv / (T - 1)
    case.check(np.abs(FtF - np.diag(e[:kk])).max() <= 1e-7 * e[0], "factor scores: covariance is not the leading spectrum", got=FtF)
    if lab:
        case.check(list(B.index) == lab and list(F.index) == list(R.index), "labels of loadings and scores")
    case.event("auto", k == "auto")
    case.nontrivial(n >= 3)


@facet("C22", quick=400, rule="Tyler: fixed point of the (shrunk) estimating equation, trace of the sample covariance, labelled targets by label", min_nontrivial=0.5)
def tyler_fixed_point(case):
    from pyvallocation import moments as M
    sh = case.choice([0.0, 0.05, 0.3, 0.9])
    X, n, T, s = _returns(case, 1, 6, 20, few=sh == 0.9 and case.bool())
    lab = names(case, n)
    R = pd.DataFrame(X, columns=lab) if case.bool() else X
    tk = case.choice(["identity", "array", "frame"])
    tgt = np.eye(n)
    if tk != "identity":
        B = case.normal(n, n) * 0.3 + np.eye(n)
        tgt = B @ B.T + 0.1 * np.eye(n)
        tgt = (tgt + tgt.T) / 2
    arg = tk
    if tk == "array" or (tk == "frame" and not isinstance(R, pd.DataFrame)):
        arg = tgt.copy()
    elif tk == "frame":
        o = case.perm(n)
        arg = pd.DataFrame(tgt, index=lab, columns=lab).iloc[o, o]
    case.note(n=n, T=T, scale=s, shrinkage=sh, target=tk)
    S = np.asarray(M.robust_covariance_tyler(R, shrinkage=sh, target=arg, max_iter=2000), float)
    Z = X - X.mean(0)
    tr = (Z ** 2).sum() / (T - 1)
    case.close(np.trace(S), tr, "trace equals the sample trace", rtol=1e-6, atol=0)
    C = S * n / np.trace(S)
    q = np.einsum("ti,ij,tj->t", Z, np.linalg.inv(C), Z) / (tr / n)
    if q.min() < 1e-4:                                    # an observation at the mean: the weight is capped
        case.nontrivial(False)
        return
    G = (Z / q[:, None]).T @ Z
    G *= n / np.trace(G)
    G = (1 - sh) * G + sh * tgt * n / np.trace(tgt)
    case.check(np.linalg.norm(G - C) <= 2e-5 * np.linalg.norm(C), "not a fixed point of Tyler's equation", got=C, next=G)


@facet("C22", quick=250, rule="graphical lasso: duality gap of the penalised likelihood, precision is the inverse, cross-validated penalty belongs to the documented grid", min_nontrivial=0.5)
def glasso_optimal(case):
    from pyvallocation import moments as M
    X, n, T, s = _returns(case, 1, 6, 15, few=case.chance(0.3))
    cen = case.bool()
    lab = names(case, n) if case.bool() else None
    R = pd.DataFrame(X, columns=lab) if lab else X
    Z = X if cen else X - X.mean(0)
    S = Z.T @ Z / T
    unit = np.trace(S) / n
    off = ~np.eye(n, dtype=bool)
    auto = case.chance(0.15)
    a = "auto" if auto else float(case.logfloat(0.005, 1.0) * unit)
    case.note(n=n, T=T, scale=s, alpha=a, centred=cen)
    C, Th = M.sparse_precision_glasso(R, alpha=a, assume_centered=cen, return_precision=True)
    if lab:
        case.check(list(C.index) == lab == list(Th.columns), "labels")
    alone = M.sparse_precision_glasso(R, alpha=a, assume_centered=cen)
    case.check(np.array_equal(np.asarray(alone), np.asarray(C)), "asking for the precision changes the covariance")
    C, Th = np.asarray(C, float), np.asarray(Th, float)
    case.check(np.abs(C @ Th - np.eye(n)).max() <= 1e-6 * np.linalg.cond(C) ** 0.5 + 1e-6 + 3e-8 / np.linalg.eigvalsh(C).min() * (np.linalg.eigvalsh(C).min() < 1e-7), "precision is not the inverse of the covariance")
    case.check(np.linalg.eigvalsh(Th).min() > 0, "precision is not positive definite")
    if n == 1:
        case.close(C, S, "single asset: sample variance", rtol=1e-3, atol=0)
        return
    cands = [a]
    if auto:
        m = max(np.abs(S[off]).max(), 1e-6 * unit)
        cands = list(np.geomspace(m, m / 100, 5))
    A, P = S / unit, Th * unit
    W = np.linalg.inv(P)
    gaps = []
    for c in cands:
        c = c / unit
        f = -np.linalg.slogdet(P)[1] + (A * P).sum() + c * np.abs(P[off]).sum()
        U = np.clip(W - A, -c, c)
        U[~off] = 0
        sg, ld = np.linalg.slogdet(A + U)
        gaps.append(f - (ld + n) if sg > 0 else np.inf)
    case.check(min(gaps) <= 0.01 * n, "penalised likelihood is not optimal (duality gap)", gap=min(gaps), alpha=a)
    case.event("auto", auto)
    case.event("sparse", np.any(np.abs(P[off]) < 1e-3))


@facet("C22", quick=300, rule="malformed estimator parameters and shapes", min_nontrivial=0.5)
def malformed_rejected(case):
    from pyvallocation import moments as M
    X, n, T, s = _returns(case, 2, 4, 12, 20)
    S = np.cov(X, rowvar=False)
    opts = {
        "lw target": lambda: M.shrink_covariance_ledoit_wolf(X, S, target="single_factor"),
        "lw shape": lambda: M.shrink_covariance_ledoit_wolf(X, S[:-1, :-1]),
        "lw labels": lambda: M.shrink_covariance_ledoit_wolf(pd.DataFrame(X, columns=list("abcd")[:n]), pd.DataFrame(S, index=list("abcd")[:n][::-1], columns=list("abcd")[:n][::-1])),
        "oas 1d": lambda: M.shrink_covariance_oas(X[:, 0]),
        "oas empty": lambda: M.shrink_covariance_oas(np.zeros((0, n))),
        "nls cov": lambda: M.shrink_covariance_nls(S, input_is_cov=True),
        "poet k": lambda: M.factor_covariance_poet(X, k=case.choice([0, -1])),
        "poet thresh": lambda: M.factor_covariance_poet(X, thresh=-0.1),
        "poet 1d": lambda: M.factor_covariance_poet(X[:, 0]),
        "tyler shrinkage": lambda: M.robust_covariance_tyler(X, shrinkage=case.choice([-0.1, 1.1])),
        "tyler target": lambda: M.robust_covariance_tyler(X, target="diagonal"),
        "tyler shape": lambda: M.robust_covariance_tyler(X, target=np.eye(n + 1)),
        "glasso alpha": lambda: M.sparse_precision_glasso(X, alpha=case.choice([0.0, -0.1])),
        "glasso T": lambda: M.sparse_precision_glasso(X[:1], alpha=0.1),
        "ewma periods": lambda: M.covariance_ewma(X, min_periods=T + 1),
        "ewma span": lambda: M.covariance_ewma(X, span=case.choice([0.5, 0, -3])),
        "ewma 1d": lambda: M.covariance_ewma(X[:, 0]),
    }
    k = case.choice(sorted(opts))
    case.event(k)
    case.note(kind=k)
    case.raises(opts[k], f"malformed request ({k})", (ValueError, ZeroDivisionError))


# ------------------------------------------------------------------------------------- C23
def _segment(case, got, a, b, what):
    """got lies on the segment [a, b]"""
    d = b - a
    L = np.linalg.norm(d)
    if L < 1e-14:
        case.close(got, a, what, rtol=1e-9, atol=1e-12)
        return 0.0
    t = float((got - a) @ d / L ** 2)
    case.check(np.linalg.norm(got - a - t * d) <= 1e-8 * (np.linalg.norm(a) + L), f"{what}: off the segment between target and sample mean", got=got, a=a, b=b)
    case.check(-1e-9 <= t <= 1 + 1e-9, f"{what}: outside the segment between target and sample mean", share=t)
    return t


@facet("C23", quick=1500, rule="drawn moments, sample sizes, containers, targets: published intensity, segment, labels, order, scale")
def stein_means(case):
    from pyvallocation import moments as M
    kind = case.choice(["jorion", "js"])
    n = case.size(3, 7) if kind == "jorion" else case.size(1, 7)
    T = case.int(1, 300)
    mu, S = moments(case, n)
    if case.bool():
        mu = mu.mean() + (mu - mu.mean()) * case.choice([0.1, 0.01])
    lab = names(case, n) if case.bool() else None
    a = pd.Series(mu, index=lab) if lab else mu
    C = pd.DataFrame(S, index=lab, columns=lab) if lab else S
    case.event(kind)
    case.note(kind=kind, mu=mu, cov=S, T=T)
    o = case.perm(n)
    ao = a.iloc[o] if lab else mu[o]
    Co = C.iloc[o, o] if lab else S[np.ix_(o, o)]
    one = np.ones(n)
    if kind == "jorion":
        f = M.shrink_mean_jorion
        got = f(a, C, T)
        J = S + 1e-8 * np.eye(n)                                  # documented jitter
        g0 = np.linalg.solve(J, one) @ mu / (np.linalg.solve(J, one) @ one)
        d = mu - g0
        phi = (n + 2) / (n + 2 + T * d @ np.linalg.solve(J, d))
        want = (1 - phi) * mu + phi * g0
        tgt = np.full(n, g0)
        again = f(ao, Co, T)
        c = case.choice([3.0, 10.0])
        scaled = np.asarray(f(mu * c, S * c * c, T), float) / c
        stol = 1e-6 / np.linalg.eigvalsh(S).min()
    else:
        f = M.shrink_mean_james_stein
        custom = case.bool()
        tgt = case.uniform(-0.05, 0.1, n) if custom else np.full(n, mu.mean())
        kw = {}
        kwo = {}
        if custom:
            kw["target"] = pd.Series(tgt, index=lab).iloc[case.perm(n)] if lab and case.bool() else tgt
            kwo["target"] = kw["target"] if isinstance(kw["target"], pd.Series) else tgt[o]
        got = f(a, C, T, **kw)
        d = mu - tgt
        q = T * d @ np.linalg.solve(S, d)
        sh = max(0.0, 1 - max(n - 2, 0) / q) if q > 0 else 0.0
        want = tgt + sh * d
        again = f(ao, Co, T, **kwo)
        c = case.choice([0.1, 10.0])
        scaled = np.asarray(f(mu * c, S * c * c, T, **({"target": tgt * c} if custom else {})), float) / c
        stol = 1e-7
        case.event("full shrinkage", sh == 0)
    g = np.asarray(got, float)
    case.close(g, want, f"{kind} mean", rtol=1e-6, atol=1e-9)
    t = _segment(case, g, tgt, mu, kind)
    if lab:
        case.check(list(got.index) == lab, "labels")
    case.close(np.asarray(again, float), g[o], f"{kind}: reordering assets", rtol=1e-7, atol=1e-10)
    case.check(np.abs(scaled - g).max() <= 1e-7 + stol * np.abs(d).max(), f"{kind}: rescaling", got=scaled, want=g)
    case.nontrivial(0.001 < t < 0.999)


def _corrupt(case, X, k):
    Y = X.copy()
    T, n = X.shape
    for j in range(n):
        rows = case.perm(T)[:k]
        Y[rows, j] = case.choice([1.0, -1.0]) * case.choice([10.0, 1e3, 1e6]) * (1 + np.abs(case.unit(k)))
    return Y


@facet("C23", quick=800, rule="Huber: estimating equation with the documented adaptive threshold, translation, scale, order, and a bound when a minority of observations is corrupted")
def huber_mean(case):
    from pyvallocation import moments as M
    X, n, T, s = _returns(case, 1, 5, 8, 60)
    k = case.int(0, (T - 1) // 3) if case.bool() else 0
    Y = _corrupt(case, X, k) if k else X
    lab = names(case, n) if case.bool() else None
    R = pd.DataFrame(Y, columns=lab) if lab else Y
    case.note(T=T, n=n, scale=s, corrupted=k)
    got = M.robust_mean_huber(R)
    if lab:
        case.check(list(got.index) == lab, "labels")
    g = np.asarray(got, float)
    for j in range(n):
        x = Y[:, j]
        med = np.median(x)
        mad = 1.4826 * np.median(np.abs(x - med))
        tau = mad * np.sqrt(T / max(np.log(max(T, 3)), 2.0))
        # the estimating function is non-increasing in mu: compare its sign on both sides
        psi = lambda m: np.clip(x - m, -tau, tau).sum()
        e = 1e-4 * max(mad, 1e-300) + 1e-11
        case.check(psi(g[j] - e) >= -1e-9 * T * tau and psi(g[j] + e) <= 1e-9 * T * tau, "Huber estimating equation is not solved", asset=j, got=g[j], residual=psi(g[j]), tau=tau)
        if k:
            cl = X[:, j]
            lo, hi = cl.min(), cl.max()
            bound = 1.4826 * (hi - lo) * np.sqrt(T / 2) * k / (T - k) + 1e-9
            case.check(lo - bound <= g[j] <= hi + bound, "corrupted minority moves the Huber mean without bound", got=g[j], clean=(lo, hi))
    o = case.perm(n)
    case.close(M.robust_mean_huber(Y[:, o]), g[o], "Huber: reordering assets", rtol=1e-12, atol=0)
    if not k:
        c, b = case.choice([0.01, 7.0]), case.choice([0.0, 0.3])
        sc = Y.std(axis=0) + 1e-12
        mad = np.median(np.abs(Y - np.median(Y, axis=0)), axis=0)
        plain = mad > 1e-4 * (sc + abs(b) * s)          # (near-)tied samples: the iteration tolerance is all there is
        h = np.asarray(M.robust_mean_huber(c * Y + b * s), float)
        case.check(np.all(np.abs((h - b * s) / c - g)[plain] <= 1e-3 * sc[plain]), "Huber: affine change of units", got=(h - b * s) / c, want=g)
    case.event("corrupted", k > 0)
    case.nontrivial(T >= 8)


def _block_medians(X, B):
    """All median-of-means vectors over partitions of the rows into B blocks of (nearly) equal size."""
    T = len(X)
    sizes = sorted([T // B + (1 if b < T % B else 0) for b in range(B)])
    out = []

    def rec(left, sz, means):
        if not sz:
            out.append(np.median(np.array(means), axis=0))
            return
        seen = set()
        for i, m in enumerate(sz):
            if m in seen:
                continue
            seen.add(m)
            first, rest = left[0], left[1:]                # the block holding the first remaining row
            for comb in itertools.combinations(rest, m - 1):
                blk = (first,) + comb
                rem = tuple(r for r in rest if r not in comb)
                rec(rem, sz[:i] + sz[i + 1:], means + [X[list(blk)].mean(axis=0)])
    rec(tuple(range(T)), sizes, [])
    return np.array(out)


@facet("C23", quick=500, rule="median of means: equals the column-wise median of block means for some partition into equal blocks (all partitions enumerated for T<=7); extremes; bounded under corruption; seeds", min_nontrivial=0.5)
def median_of_means(case):
    from pyvallocation import moments as M
    small = case.bool()
    n = case.int(1, 4)
    T = case.int(1, 7) if small else case.int(9, 60)
    X = case.normal(T, n) * 0.05
    lab = names(case, n) if case.bool() else None
    R = pd.DataFrame(X, columns=lab) if lab else X
    seed = case.int(0, 10 ** 6)
    nb = case.choice(["auto", case.int(1, T), T + 3])
    B = int(np.ceil(np.sqrt(T))) if nb == "auto" else min(nb, T)
    rs = lambda: seed if case_seed_int else np.random.default_rng(seed)
    case_seed_int = case.bool()
    got = M.robust_mean_median_of_means(R, n_blocks=nb, random_state=rs())
    case.note(T=T, n=n, blocks=nb, seed=seed, X=X)
    if lab:
        case.check(list(got.index) == lab, "labels")
    g = np.asarray(got, float)
    case.close(M.robust_mean_median_of_means(R, n_blocks=nb, random_state=rs()), g, "same seed, different result", rtol=0, atol=0)
    o = case.perm(n)
    case.close(M.robust_mean_median_of_means(X[:, o], n_blocks=nb, random_state=rs()), g[o], "reordering assets", rtol=1e-12, atol=1e-15)
    c = case.choice([0.01, 50.0])
    case.close(M.robust_mean_median_of_means(X * c, n_blocks=nb, random_state=rs()), g * c, "rescaling", rtol=1e-12, atol=1e-15)
    if B == 1:
        case.close(g, X.mean(0), "one block: the mean", rtol=1e-10, atol=1e-14)
    elif B == T:
        case.close(g, np.median(X, axis=0), "one block per row: the median", rtol=1e-10, atol=1e-14)
    elif small:
        allm = _block_medians(X, B)
        case.check(np.abs(allm - g).max(axis=1).min() <= 1e-12, "not a median of equal-block means for any partition", got=g, partitions=len(allm))
        case.event("enumerated")
    else:
        k = case.int(0, (B - 1) // 2)
        if k:
            rows = case.perm(T)[:k]
            Y = X.copy()
            Y[rows] += 1e6
            h = np.asarray(M.robust_mean_median_of_means(Y, n_blocks=nb, random_state=rs()), float)
            case.check(np.all(h >= X.min(0) - 1e-12) and np.all(h <= X.max(0) + 1e-12), "corrupting fewer than half of the blocks moves the estimate outside the clean range", got=h)
            case.event("corrupted")
    case.nontrivial(T >= 3)


@facet("C23", quick=40, rule="median of means on rows switched from zero to one in random orders (120 orders, any block count): the estimate never falls, climbs from zero to one, and every row moves it in some order; all cases non-trivial")
def every_row_counts_in_the_median_of_means(case):
    from pyvallocation import moments as M
    T = case.size(2, 40, 70)
    nb = case.choice(["auto", "auto", case.int(1, T)])
    B = int(np.ceil(np.sqrt(T))) if nb == "auto" else nb
    K = 120
    orders = np.random.default_rng(case.int(0, 10 ** 6)).permuted(np.tile(np.arange(T), (K, 1)), axis=1)
    rank = np.argsort(orders, axis=1)                          # step at which a row is switched on
    X = (rank[:, :, None] < np.arange(T + 1)).transpose(1, 0, 2).astype(float)      # row, order, step
    case.note(T=T, blocks=nb)
    g = np.asarray(M.robust_mean_median_of_means(X.reshape(T, -1), n_blocks=nb, random_state=case.int(0, 10 ** 6)), float).reshape(K, T + 1)
    case.check(np.all(g[:, 0] == 0) and np.all(np.abs(g[:, -1] - 1) < 1e-12), "constant data: not the constant")
    d = np.diff(g, axis=1)
    case.check(np.all(d >= -1e-12), "raising a row lowers the estimate")
    moved = np.zeros(T, bool)
    moved[orders[d > 1e-9]] = True
    # a row moves the median in an order with probability at least about one in the number of blocks
    if 2 * B <= K / 5 or B == 1:
        case.check(np.all(moved), "some rows never count", rows=np.flatnonzero(~moved))
    # block means of zeros and ones are multiples of one over the two block sizes (halved between two middle blocks)
    lo, hi = T // B, -(-T // B)
    vals = np.unique(np.concatenate([np.arange(lo + 1) / lo, np.arange(hi + 1) / hi]))
    mids = vals if B % 2 else np.unique((vals[:, None] + vals[None]).ravel() / 2)
    j = np.clip(np.searchsorted(mids, g), 1, len(mids) - 1)
    case.check(np.all(np.minimum(np.abs(g - mids[j]), np.abs(g - mids[j - 1])) < 1e-9), "blocks are not of equal size", blocks=B)


@facet("C23", quick=150, rule="malformed shapes, sample sizes, targets, block counts", min_nontrivial=0.5)
def malformed_mean_requests(case):
    from pyvallocation import moments as M
    n = case.int(3, 5)
    mu, S = moments(case, n)
    X = case.normal(10, n)
    lab = [f"a{i}" for i in range(n)]
    opts = {
        "jorion T": lambda: M.shrink_mean_jorion(mu, S, case.choice([0, -1])),
        "jorion N": lambda: M.shrink_mean_jorion(mu[:2], S[:2, :2], 10),
        "jorion shape": lambda: M.shrink_mean_jorion(mu, S[:-1, :-1], 10),
        "jorion labels": lambda: M.shrink_mean_jorion(pd.Series(mu, index=lab), pd.DataFrame(S, index=lab[::-1], columns=lab[::-1]), 10),
        "js T": lambda: M.shrink_mean_james_stein(mu, S, 0),
        "js shape": lambda: M.shrink_mean_james_stein(mu, S[:-1], 10),
        "js size": lambda: M.shrink_mean_james_stein(mu[:-1], S, 10),
        "js target": lambda: M.shrink_mean_james_stein(mu, S, 10, target="zero"),
        "js target size": lambda: M.shrink_mean_james_stein(mu, S, 10, target=mu[:-1]),
        "js target labels": lambda: M.shrink_mean_james_stein(pd.Series(mu, index=lab), S, 10, target=pd.Series(mu, index=[x + "z" for x in lab])),
        "huber 1d": lambda: M.robust_mean_huber(X[:, 0]),
        "huber scalar": lambda: M.robust_mean_huber(X, allow_vectorized=False),
        "mom blocks": lambda: M.robust_mean_median_of_means(X, n_blocks=case.choice([0, -2])),
        "mom 1d": lambda: M.robust_mean_median_of_means(X[0]),
    }
    k = case.choice(sorted(opts))
    case.event(k)
    case.note(kind=k)
    case.raises(opts[k], f"malformed request ({k})", ValueError)


# ------------------------------------------------------------------------------------- C24
MEANS = {"sample": ["sample", "simple", "Sample"], "jorion": ["jorion", "bayes_stein"], "js": ["james_stein", "james-stein", "js", "JS"],
         "huber": ["huber", "robust_huber"], "mom": ["median_of_means", "mom"]}
COVS = {"sample": ["sample", "empirical"], "lw": ["ledoit_wolf", "lw", "LW"], "oas": ["oas", "OAS"], "nls": ["nls", "nonlinear", "nonlinear_shrinkage"],
        "poet": ["poet"], "tyler": ["tyler", "tyler_shrinkage"], "glasso": ["glasso", "graphical_lasso"], "ewma": ["ewma"]}


@facet("C24", quick=900, rule="drawn mean and covariance estimator, alias, options, probabilities and container; compared with the individually called estimators", min_nontrivial=0.7)
def factory_equals_estimators(case):
    from pyvallocation import moments as M
    X, n, T, s = _returns(case, 1, 5, 14, 40)
    mk, ck = case.choice(sorted(MEANS)), case.choice(sorted(COVS))
    if mk == "jorion" and n < 3:
        mk = "js"
    if ck == "nls" and n < 2:
        ck = "oas"
    lab = names(case, n) if case.chance(0.7) else None
    idx = pd.date_range("2022-01-01", periods=T)
    R = pd.DataFrame(X, columns=lab, index=idx) if lab else X
    p = probs(case, T) if case.bool() else None
    P = pd.Series(p, index=idx) if p is not None and case.bool() else p
    mkw, ckw = {}, {}
    if mk == "js" and case.bool():
        mkw["target"] = case.unit(n) * s
    if mk == "huber" and case.bool():
        mkw["tol"] = 1e-9
    if mk == "mom":
        mkw = dict(random_state=case.int(0, 99), n_blocks=case.choice(["auto", 3]))
    if ck == "lw" and case.bool() and n > 1:
        ckw["target"] = "constant_correlation"
    if ck == "oas" and case.bool():
        ckw["assume_centered"] = False
    if ck == "nls" and case.bool():
        ckw["dof_correction"] = 1
    if ck == "poet" and case.bool():
        ckw = dict(k=1, thresh=0.1, standardize=case.bool(), **(dict(return_decomp=True) if case.bool() else {}))
    if ck == "tyler" and case.bool():
        ckw = dict(shrinkage=0.2)
    if ck == "glasso":
        ckw = dict(alpha=0.1 * s * s, **(dict(return_precision=True) if case.bool() else {}))
    if ck == "ewma":
        ckw = dict(span=case.choice([5, 100]))
    ma, ca = case.choice(MEANS[mk]), case.choice(COVS[ck])
    case.note(mean=ma, cov=ca, mean_kwargs=mkw, cov_kwargs=ckw, T=T, n=n, weighted=p is not None, labels=lab)
    kw = {}
    if mkw or case.bool():
        kw["mean_kwargs"] = dict(mkw)
    if ckw or case.bool():
        kw["cov_kwargs"] = dict(ckw)
    copies = {k: dict(v) for k, v in kw.items()}
    mu, S = M.estimate_moments(R, P, mean_estimator=ma, cov_estimator=ca, **kw)
    for k in kw:
        case.check(kw[k].keys() == copies[k].keys(), "the factory changed the options it was given")
    pp = np.full(T, 1.0 / T) if p is None else p
    em, eS = fsum_moments(X, pp)
    wm, wS = (pd.Series(em, index=lab), pd.DataFrame(eS, index=lab, columns=lab)) if lab else (em, eS)
    want = {"sample": lambda: wm, "jorion": lambda: M.shrink_mean_jorion(wm, wS, T), "js": lambda: M.shrink_mean_james_stein(wm, wS, T, **mkw),
            "huber": lambda: M.robust_mean_huber(R, **mkw), "mom": lambda: M.robust_mean_median_of_means(R, **mkw)}[mk]()
    ckw = {k: v for k, v in ckw.items() if k not in ("return_decomp", "return_precision")}
    wantS = {"sample": lambda: wS, "lw": lambda: M.shrink_covariance_ledoit_wolf(R, wS, **ckw), "oas": lambda: M.shrink_covariance_oas(R, **ckw),
             "nls": lambda: M.shrink_covariance_nls(R, **ckw), "poet": lambda: M.factor_covariance_poet(R, **ckw), "tyler": lambda: M.robust_covariance_tyler(R, **ckw),
             "glasso": lambda: M.sparse_precision_glasso(R, **ckw), "ewma": lambda: M.covariance_ewma(R, **ckw)}[ck]()
    case.close(mu, want, f"mean ({ma})", rtol=1e-7, atol=1e-10 * s)
    case.close(S, wantS, f"covariance ({ca})", rtol=1e-7, atol=1e-9 * s * s)
    if lab:
        case.check(list(mu.index) == lab and list(S.index) == lab and list(S.columns) == lab, "labels")
    case.event(mk + "+" + ck)


@facet("C24", quick=120, rule="unknown names, malformed data and probabilities", min_nontrivial=0.5)
def factory_rejects(case):
    from pyvallocation import moments as M
    n, T = case.int(2, 4), 12
    X = case.normal(T, n)
    k = case.choice(["mean", "cov", "1d", "p length", "p sum", "p negative", "option"])
    case.event(k)
    case.note(kind=k)
    bad = case.choice(["mle", "", "ledoit", "sample ", "none"])
    u = np.full(T, 1 / T)
    f = {"mean": lambda: M.estimate_moments(X, mean_estimator=bad), "cov": lambda: M.estimate_moments(X, cov_estimator=bad),
         "1d": lambda: M.estimate_moments(X[:, 0]), "p length": lambda: M.estimate_moments(X, u[:-1]), "p sum": lambda: M.estimate_moments(X, u * 2),
         "p negative": lambda: M.estimate_moments(X, np.append(u[:-1] + 0.1, u[-1] - 0.1 * (T - 1))),
         "option": lambda: M.estimate_moments(X, cov_estimator="oas", cov_kwargs=dict(nope=1))}[k]
    case.raises(f, f"malformed request ({k})", (ValueError, TypeError))
