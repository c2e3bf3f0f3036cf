"""C37: positive semi-definite check and repair."""
import numpy as np
import pandas as pd
from .core import facet
from .c_mv import lib


def _spectrum_matrix(case, nmax=10):
    """Symmetric matrix with a chosen spectrum (negative, zero, near-zero and positive eigenvalues) and scale."""
    n = case.int(1, nmax)
    s = case.choice([1.0, 1e-4, 1e-8, 1e4, 1e8, 1e12, 1e-12])
    kind = case.choice(["psd", "rank deficient", "one negative", "indefinite", "barely negative", "diagonal", "zero"])
    e = np.abs(case.normal(n)) + 0.01
    if kind == "rank deficient":
        e[: case.int(1, n)] = 0.0
    elif kind == "one negative":
        e[0] = -case.logfloat(1e-6, 10.0)
    elif kind == "indefinite":
        e = case.normal(n)
    elif kind == "barely negative":
        e[0] = -case.choice([5e-9, 0.5e-8, 2e-8, 1e-7]) / s
    elif kind == "zero":
        e[:] = 0.0
    e = e * s
    if kind == "diagonal":
        M = np.diag(np.where(case.unit(n) < 0, -e, e))
        e = np.diag(M).copy()
    else:
        q, _ = np.linalg.qr(case.normal(n, n) + 1e-3 * np.eye(n))
        M = (q * e) @ q.T
        M = (M + M.T) / 2
    case.event(kind)
    err = 1e-13 * n * max(np.abs(e).max(), np.abs(M).max())
    return M, np.sort(e), n, s, kind, err


@facet("C37", quick=6000, rule="symmetric matrices of a drawn spectrum, size 1..10 and scale 1e-12..1e12 (PSD, rank-deficient, indefinite, barely negative): the check agrees with the smallest eigenvalue for several tolerances; asymmetric matrices fail it", min_nontrivial=0.3)
def check_agrees_with_spectrum(case):
    from pyvallocation.utils.validation import is_psd
    from pyvallocation.utils import is_psd as again
    M, e, n, s, kind, err = _spectrum_matrix(case)
    tol = case.choice([None, 1e-8, 1e-10, 1e-4, 0.1, 0.0])
    t = 1e-8 if tol is None else tol
    kw = {} if tol is None else dict(tolerance=tol)
    M0 = M.copy()
    asym = n > 1 and case.chance(0.15)
    if asym:
        d = case.choice([max(np.abs(M).max(), t, 1e-3) * case.choice([0.01, 1.0]) + 2 * t, 3 * (t + 1e-5 * np.abs(M).max()) + 1e-14])
        M[0, n - 1] += d
        case.event("asymmetric")
        M0 = M.copy()
    case.note(kind=kind, eigenvalues=e, scale=s, tolerance=t, asymmetric=bool(asym), n=n)
    got = is_psd(M, **kw)
    case.check(got in (True, False) and again(M, **kw) == got, "not a truth value", got=got)
    case.check(np.array_equal(M, M0), "input modified")
    if asym:
        case.check(not got, "an asymmetric matrix passes as PSD")
    elif e[0] < -t - err:
        case.check(not got, "a matrix with a negative eigenvalue passes as PSD", eig=e[0], tolerance=t)
    elif e[0] >= -t + err or (e[0] >= 0 and t >= 0):
        case.check(got, "a positive semi-definite matrix is reported as not PSD", eig=e[0], tolerance=t)
    else:
        case.event("undecided")
    case.nontrivial(n >= 2 and (asym or abs(e[0] + t) > err))


@facet("C37", quick=6000, rule="same matrices (optionally slightly asymmetric, as arrays): the repair returns the symmetrised input when it qualifies, else input + k I with a PSD result and k within jitter of the negative spectrum")
def repair_is_minimal(case):
    from pyvallocation.utils.validation import ensure_psd_matrix
    M, e, n, s, kind, err = _spectrum_matrix(case)
    if n > 1 and case.chance(0.3):
        A = case.unit(n, n) * np.abs(M).max()
        M = M + (A - A.T) / 2                                # the symmetric part, hence the spectrum, is kept
        case.event("asymmetric")
    jit = case.choice([None, 1e-8, 1e-6, 1e-3])
    j = 1e-8 if jit is None else jit
    case.note(kind=kind, eigenvalues=e, scale=s, jitter=j, n=n)
    M0 = M.copy()
    R = ensure_psd_matrix(M) if jit is None else ensure_psd_matrix(M, jitter=jit)
    case.check(np.array_equal(M, M0), "input modified")
    case.check(isinstance(R, np.ndarray) and R.shape == (n, n) and np.all(np.isfinite(R)), "shape or values", got=R)
    case.check(np.array_equal(R, R.T), "repair is not symmetric")
    sym = (M0 + M0.T) / 2
    r = np.linalg.eigvalsh(R)
    case.check(r[0] >= -max(j, 3 * err), "repaired matrix is not PSD", eig=r[0], allowed=j)
    D = R - sym
    k = float(np.mean(np.diag(D)))
    case.check(np.abs(D - k * np.eye(n)).max() <= err + 1e-15 * np.abs(sym).max(), "repair changes more than the diagonal level", got=D)
    if e[0] >= 0 or e[0] >= -j + err:
        case.check(np.abs(D).max() == 0.0, "a qualifying matrix was changed", by=k)
        case.event("kept")
    elif e[0] < -j - err:
        case.check(-e[0] - err <= k <= -e[0] + (j if j > 10 * err else max(j, 1e-6)) + err, "diagonal shift is not the negative spectrum plus the jitter", got=k, need=-e[0])
        case.event("repaired")
    case.nontrivial(n >= 2)


@facet("C37", quick=1200, rule="non-square, one- and three-dimensional, NaN and infinite matrices: rejected (ValueError), or reported as not PSD by the check", min_nontrivial=0.5)
def malformed_matrices(case):
    from pyvallocation.utils.validation import ensure_psd_matrix, is_psd
    n = case.int(1, 5)
    kind = case.choice(["rectangular", "1d", "3d", "nan", "inf", "-inf", "nan pair", "inf diagonal"])
    case.note(kind=kind, n=n)
    case.event(kind)
    Q = case.normal(n, n)
    M = Q @ Q.T + np.eye(n)
    if kind in ("rectangular", "1d", "3d"):
        A = {"rectangular": case.normal(n, n + 1), "1d": case.normal(n), "3d": case.normal(n, n, 2)}[kind]
        case.raises(lambda: is_psd(A), "is_psd accepts a " + kind + " array", ValueError)
        case.raises(lambda: ensure_psd_matrix(A), "ensure_psd_matrix accepts a " + kind + " array", ValueError)
        return
    i, j = case.int(0, n - 1), case.int(0, n - 1)
    v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "nan pair": np.nan, "inf diagonal": np.inf}[kind]
    if kind == "inf diagonal":
        M[i, i] = v
    elif kind == "nan pair":
        M[i, j] = M[j, i] = v
    else:
        M[i, j] = v
    try:
        got = is_psd(M)
    except ValueError:
        got = False
    case.check(not got, "a non-finite matrix is reported as PSD")
    case.raises(lambda: ensure_psd_matrix(M), "ensure_psd_matrix returns a matrix for non-finite input", (ValueError, np.linalg.LinAlgError))


@facet("C37", quick=800, rule="moments built from a covariance of drawn spectrum: the problem uses the repaired matrix (labels kept) or the matrix itself when it qualifies", min_nontrivial=0.3)
def entry_points_use_the_repair(case):
    pv = lib()
    M, e, n, s, kind, err = _spectrum_matrix(case, 6)
    mu = case.unit(n)
    lab = [f"a{i}" for i in range(n)] if case.bool() else None
    case.note(kind=kind, eigenvalues=e, scale=s, n=n, labels=lab)
    w = pv.PortfolioWrapper.from_moments(pd.Series(mu, index=lab), pd.DataFrame(M, index=lab, columns=lab)) if lab else pv.PortfolioWrapper.from_moments(mu, M)
    C = np.asarray(w.dist.cov, float)
    case.check(lab is None or list(w.dist.asset_names) == lab, "labels")
    case.check(np.array_equal(C, C.T) and np.linalg.eigvalsh(C)[0] >= -max(1e-8, 3 * err), "covariance used is not PSD", eig=np.linalg.eigvalsh(C)[0])
    if e[0] >= 0:
        case.check(np.array_equal(C, M), "a valid covariance was changed")
    else:
        k = np.mean(np.diag(C - M))
        case.check(np.abs(C - M - k * np.eye(n)).max() <= err and k <= max(-e[0], 0) + 1e-6 + err, "repair larger than needed", shift=k, need=-e[0])
    case.close(w.dist.mu, mu, "means", rtol=0, atol=0)
    case.nontrivial(n >= 2)


@facet("C37", quick=3000, rule="vectors whose sum misses one, and whose smallest entry passes zero, by a drawn multiple of a drawn tolerance: the checks answer by the documented absolute tolerance; NaN fails; non-trivial = tolerance times 0.5..20 away")
def weight_checks(case):
    from pyvallocation.utils.validation import check_weights_sum_to_one, check_non_negativity
    n, tol, k = case.int(1, 12), 10.0 ** case.int(-9, -3), case.choice([0.0, 0.5, 0.9, 1.1, 2.0, 5.0, 20.0]) * case.choice([-1, 1])
    w = case.uniform(0, 1, n)
    w = w / w.sum()
    w[case.int(0, n - 1)] += k * tol
    gap = abs(float(np.sum(w)) - 1.0)
    case.note(n=n, tol=tol, multiple=k)
    kw = {} if tol == 1e-6 and case.bool() else dict(tolerance=tol)
    if abs(gap - tol) > 1e-13:
        case.check(bool(check_weights_sum_to_one(w, **kw)) == (gap <= tol), f"sum off by {gap:.3g} judged wrongly at tolerance {tol:.3g}")
    v = case.uniform(0, 1, n)
    v[case.int(0, n - 1)] = -k * tol
    if v.size and case.chance(0.1):
        v[case.int(0, n - 1)] = np.nan
    if abs(float(np.nanmin(v, initial=1.0)) + tol) > 1e-16:
        case.check(bool(check_non_negativity(v, tolerance=tol)) == bool((v >= -tol).all()), f"smallest entry {np.nanmin(v, initial=1.0):.3g} judged wrongly at tolerance {tol:.3g}")
    if tol == 1e-9:
        case.check(bool(check_non_negativity(v)) == bool((v >= -tol).all()) or abs(np.nanmin(v, initial=1.0) + tol) < 1e-16, "default tolerance")
    case.nontrivial(k != 0)
