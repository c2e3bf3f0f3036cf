"""C30 C31: Black-Litterman and Normal-inverse-Wishart."""
import numpy as np
import pandas as pd
from scipy.stats import chi2
from .core import facet
from .gen import moments, names, simplex_point
from .c_mv import lib


def _setup(case, nmax=6, nmin=2):
    n = case.size(nmin, nmax)
    mu, S = moments(case, n)
    labelled = case.chance(0.6)
    lab = names(case, n) if labelled else None
    return n, mu, S, lab


def _vec(case, x, lab):
    """Per-asset vector in one of its accepted containers (labelled ones may be in another order)."""
    if lab is None:
        return case.choice([np.array(x), list(map(float, x))])
    m = case.int(0, 2)
    if m == 0:
        return np.array(x)
    s = pd.Series(x, index=lab)
    if m == 2 and set(lab) == set(range(len(lab))) and case.bool():
        return pd.Series([float(s[i]) for i in range(len(lab))])       # the default index is a label too
    return s.iloc[case.perm(len(lab))] if m == 2 else s


def _frame(S, lab):
    return np.array(S) if lab is None else pd.DataFrame(S, index=lab, columns=lab)


def _views(case, n, mu, S, lab):
    """(argument, P, Q, keys)"""
    sd = np.sqrt(np.diag(S))
    mode = case.int(0, 9)
    number = case.chance(0.15)                      # a numeric string for the number: an asset's number, or its position next to text labels
    words = lab is not None and all(isinstance(l, str) and not l.isdigit() for l in lab)

    def key(i):
        if lab is None or mode > 1 and number and words:
            return str(i) if number and mode > 1 and case.bool() else i
        if number and mode > 1 and not isinstance(lab[i], str):
            return str(lab[i])                      # the asset of that number, not the one at that position
        return lab[i]
    if mode == 0:                                   # one absolute view per asset, positional
        q = mu + sd * case.unit(n) * 0.5
        return np.array(q), np.eye(n), q, [key(i) for i in range(n)]
    if mode == 1 and lab:
        k = case.int(1, n)
        idx = case.perm(n)[:k]
        q = mu[idx] + sd[idx] * case.unit(k) * 0.5
        return pd.Series(q, index=[lab[i] for i in idx]), np.eye(n)[idx], q, [lab[i] for i in idx]
    K = case.int(1, min(4, 2 * n))
    d, P, Q, keys = {}, [], [], []
    for _ in range(K):
        i = case.int(0, n - 1)
        j = (i + case.int(1, n - 1)) % n
        rel = case.bool()
        k = (key(i), key(j)) if rel else key(i)
        if k in d:
            continue
        row = np.zeros(n)
        row[i] = 1.0
        if rel:
            row[j] = -1.0
        t = float(row @ mu + case.float(-0.5, 0.5) * sd[i])
        d[k] = case.choice([t, (t,), [t]]) if case.chance(0.2) else t
        keys.append(k); P.append(row); Q.append(t)
    return d, np.array(P), np.array(Q), keys


def _omega(case, P, base, tau, keys):
    """(kwargs, Omega)"""
    K = len(P)
    mode = case.choice(["default", "idzorek", "vector", "matrix", "idzorek"])
    tS = tau * base
    if mode == "default":
        return dict(omega=None), np.diag(np.diag(P @ tS @ P.T)), mode
    if mode == "idzorek":
        use_tau = case.chance(0.7)
        c = case.uniform(0.03, 0.97, K)
        m = case.choice(["scalar", "list", "dict", "series"])
        if m == "scalar":
            c = np.full(K, c[0])
            conf = float(c[0])
        elif m == "dict":
            text = {i: ",".join(map(str, k)) for i, k in enumerate(keys) if isinstance(k, tuple)}   # documented spelling of a relative view
            ok = len(set(text.values())) == len(text) and not any("," in str(x) for k in keys for x in (k if isinstance(k, tuple) else (k,)))
            conf = {text[i] if ok and i in text and case.bool() else keys[i]: float(c[i]) for i in case.perm(K)}
            if case.chance(0.15):                   # a view that is not named has full confidence
                i = case.int(0, K - 1)
                conf = {k: v for k, v in conf.items() if k not in (keys[i], text.get(i))}
                c[i] = 1 - 1e-6
        elif m == "series":
            conf = pd.Series(c) if any(isinstance(k, tuple) for k in keys) else pd.Series(c, index=keys)
            if not isinstance(conf.index, pd.RangeIndex):
                conf = conf.iloc[case.perm(K)]
        else:
            conf = list(map(float, c))
        om = np.diag((1 - c) / c * np.einsum("ij,jk,ik->i", P, tS if use_tau else base, P))
        return dict(omega=case.choice(["idzorek", "Idzorek"]), view_confidences=conf, idzorek_use_tau=use_tau), om, mode
    sc = np.diag(P @ tS @ P.T)
    if mode == "vector":
        v = sc * np.exp(case.uniform(-4, 4, K))
        return dict(omega=v), np.diag(v), mode
    B = case.normal(K, K) * 0.5 + np.eye(K)
    M = B @ B.T + 0.05 * np.eye(K)
    M = M * np.sqrt(np.outer(sc, sc))
    return dict(omega=M), M, mode


def _prior(case, n, mu, S, lab):
    src = case.choice(["pi", "market_weights", "prior_mean"])
    if src == "market_weights":
        w = simplex_point(case, n)
        if n > 1 and case.chance(0.2):              # a benchmark with a short leg, still summing to one
            i = case.int(0, n - 1)
            w = w + 0.3 * (np.eye(n)[i] - np.eye(n)[(i + 1) % n])
        d = case.logfloat(0.5, 5)
        scale = case.choice([1.0, 1.0, 250.0])      # capitalisations rather than weights
        return dict(market_weights=_vec(case, w * scale, lab), risk_aversion=d), d * S @ w, src
    return {src: _vec(case, mu, lab)}, mu, src


def _bl(case, cov, tau, **kw):
    pv = lib()
    if tau != 0.05 or case.bool():                  # 0.05 is the documented default
        kw["tau"] = tau
    if case.bool():
        from pyvallocation.moments import posterior_moments_black_litterman as f
        return f(prior_cov=cov, **kw)
    from pyvallocation.views import BlackLittermanProcessor
    return BlackLittermanProcessor(prior_cov=cov, **kw).get_posterior()


def _info_form(S, tau, pi, P, Q, om):
    """Gaussian update in information form (the library uses the gain form)."""
    L = np.linalg.inv(tau * S)
    Oi = np.linalg.inv(om)
    V = np.linalg.inv(L + P.T @ Oi @ P)
    V = (V + V.T) / 2
    return V @ (L @ pi + P.T @ Oi @ Q), S + V


@facet("C30", quick=2500, rule="drawn prior (three mean sources, arrays or labelled in any order), views (dict, vector, series; absolute, relative), tau and view uncertainty (default, vector, matrix, confidences in four containers); compared with the information-form Gaussian update")
def closed_form(case):
    n, mu, S, lab = _setup(case)
    tau = 0.05 if case.chance(0.2) else case.logfloat(0.005, 1.5)
    pk, pi, src = _prior(case, n, mu, S, lab)
    views, P, Q, keys = _views(case, n, pi, S, lab)
    ok, om, mode = _omega(case, P, S, tau, keys)
    case.note(labels=lab, mu=mu, cov=S, tau=tau, source=src, views=str(views), omega=mode)
    A = np.array(S)
    if case.chance(0.1):                            # not quite symmetric: its symmetric part is the covariance
        E = case.unit(n, n) * np.abs(S).max() * case.choice([1e-3, 1e-2])
        A = A + (E - E.T) / 2
        if np.abs(E - E.T).max() <= 5 * (1e-8 + 1e-5 * np.abs(S).max()):
            A = np.array(S)
    m, C = _bl(case, _frame(A, lab), tau, mean_views=views, **pk, **ok)
    if lab:
        case.check(list(m.index) == lab and list(C.index) == lab and list(C.columns) == lab, "labels of the posterior", got=list(m.index))
    em, eC = _info_form(S, tau, pi, P, Q, om)
    sc = np.sqrt(np.diag(S)).max()
    case.close(m, em, "posterior mean", rtol=1e-6, atol=1e-7 * sc)
    case.close(C, eC, "posterior covariance", rtol=1e-6, atol=1e-7 * sc ** 2)
    case.event(mode)
    case.event(src)
    case.nontrivial(len(P) >= 1 and np.max(np.abs(em - pi)) > 1e-5)


@facet("C30", quick=600, rule="zero view uncertainty or full confidence: the views hold in the posterior mean; zero confidence and no views: the prior mean")
def certain_and_absent_views(case):
    n, mu, S, lab = _setup(case)
    tau = case.logfloat(0.01, 1.0)
    pk, pi, src = _prior(case, n, mu, S, lab)
    key = (lambda i: lab[i]) if lab else (lambda i: i)
    k = case.int(1, n)
    idx = case.perm(n)
    d, P, Q = {}, [], []
    for a in range(k):                              # independent rows: a chain of relative views and an absolute one
        row = np.zeros(n)
        row[idx[a]] = 1.0
        rel = a + 1 < n and case.bool()
        if rel:
            row[idx[a + 1]] = -1.0
        t = float(row @ pi + case.float(-0.1, 0.1))
        d[(key(idx[a]), key(idx[a + 1])) if rel else key(idx[a])] = t
        P.append(row); Q.append(t)
    P, Q = np.array(P), np.array(Q)
    case.note(labels=lab, pi=pi, cov=S, tau=tau, views=str(d))
    gap = np.max(np.abs(Q - P @ pi))
    kappa = np.linalg.cond(P @ S @ P.T)
    mode = case.choice(["zero", "full", "none-conf", "no views"])
    case.event(mode)
    cov = _frame(S, lab)
    if mode == "zero":
        m, _ = _bl(case, cov, tau, mean_views=d, omega=np.zeros(k), **pk)
        case.close(P @ np.asarray(m), Q, "certain views", rtol=1e-7, atol=1e-9 * max(1.0, kappa))
    elif mode == "full":
        m, _ = _bl(case, cov, tau, mean_views=d, omega="idzorek", view_confidences=1.0, **pk)
        tr = np.diag(P @ S @ P.T)
        # confidence 1 means Omega -> 0 (clipped at 1-1e-6): the residual is Omega (P tS P' + Omega)^-1 gap
        om = 1.1e-6 * np.diag(tr)
        bound = np.max(np.abs(om) @ np.abs(np.linalg.inv(P @ S @ P.T + om)) @ np.abs(Q - P @ pi))
        case.check(np.max(np.abs(P @ np.asarray(m) - Q)) <= 2 * bound + 1e-9, "views with full confidence missed", got=P @ np.asarray(m), want=Q)
    elif mode == "none-conf":
        none = case.choice([[0.0] * k, np.zeros(k), 0.0, dict.fromkeys(d, 0.0)])
        m, _ = _bl(case, cov, tau, mean_views=d, omega="idzorek", view_confidences=none, **pk)
        drift = np.max(np.abs(np.asarray(m) - pi))
        case.check(drift <= 1e-4 * (1 + kappa) * gap + 1e-12, "views without confidence moved the mean", got=m, prior=pi)
    else:
        views = case.choice([None, {}])
        m, C = _bl(case, cov, tau, mean_views=views, omega=None, **pk)
        case.close(m, pi, "no views: prior mean", rtol=1e-10, atol=1e-14)
        case.close(C, S, "no views: prior covariance", rtol=1e-10, atol=1e-16)
    case.nontrivial(gap > 1e-4)


@facet("C30", quick=300, rule="monotone confidence: raising a single view's confidence moves its posterior mean monotonically from the prior to the view, by exactly the confidence", min_nontrivial=0.5)
def confidence_is_the_share_of_the_gap(case):
    n, mu, S, lab = _setup(case)
    tau = case.logfloat(0.01, 1.0)
    c = case.float(0.02, 0.98)
    i = case.int(0, n - 1)
    j = (i + case.int(1, n - 1)) % n
    rel = case.bool()
    row = np.zeros(n)
    row[i] = 1
    if rel:
        row[j] = -1
    t = float(row @ mu + 0.05)
    key = (lambda i: lab[i]) if lab else (lambda i: i)
    m, _ = _bl(case, _frame(S, lab), tau, pi=_vec(case, mu, lab), mean_views={(key(i), key(j)) if rel else key(i): t}, omega="idzorek", view_confidences=c)
    case.note(c=c, tau=tau, row=row, mu=mu)
    case.close(row @ np.asarray(m), row @ mu + c * (t - row @ mu), "posterior of the view vs confidence share", rtol=1e-7, atol=1e-9)


@facet("C30", quick=300, rule="malformed requests: unknown labels, wrong lengths, missing prior or confidences, range views", min_nontrivial=0.5)
def malformed_rejected(case):
    n, mu, S, lab = _setup(case)
    cov = _frame(S, lab)
    kind = case.choice(["unknown", "short pi", "no prior", "two priors", "no conf", "range view", "omega size", "conf size", "risk aversion", "labels", "not square", "position"])
    case.event(kind)
    v = {(lab[0] if lab else 0): 0.05}
    kw = dict(pi=mu, mean_views=v, omega=None)
    if kind == "unknown":
        kw["mean_views"] = {"NOPE": 0.1}
    elif kind == "position":
        kw["mean_views"] = {(0 if not lab else lab[0], 10 ** 6): 0.1}
    elif kind == "short pi":
        kw = dict({case.choice(["pi", "prior_mean", "market_weights"]): np.append(mu, 0.1)}, mean_views=v, omega=None)
    elif kind == "no prior":
        kw.pop("pi")
    elif kind == "two priors":                      # documented as mutually exclusive: one would be ignored silently
        a = [s for s in ("pi", "market_weights", "prior_mean") if case.bool()]
        a = a if len(a) > 1 else ["pi", "market_weights", "prior_mean"]
        kw.pop("pi")
        kw.update({s: np.full(n, 1 / n) if s == "market_weights" else mu for s in a})
    elif kind == "no conf":
        kw["omega"] = "idzorek"
    elif kind == "range view":
        kw["mean_views"] = {next(iter(v)): (0.01, 0.05)}
    elif kind == "omega size":
        kw["omega"] = case.choice([np.ones(2), np.eye(3), np.ones((1, 2))])
    elif kind == "conf size":
        kw.update(omega="idzorek", view_confidences=[0.5, 0.6])
    elif kind == "risk aversion":
        kw = dict(market_weights=np.full(n, 1 / n), risk_aversion=case.choice([0.0, -1.0]), mean_views=v, omega=None)
    elif kind == "labels":
        lab = lab or [f"a{i}" for i in range(n)]
        cov = pd.DataFrame(S, index=lab, columns=lab)
        kw = dict(pi=pd.Series(mu, index=[f"z{i}" for i in range(n)]), mean_views=None, omega=None)
    else:
        cov = S[:, :-1]
    case.note(kind=kind)
    case.raises(lambda: _bl(case, cov, 0.05, **kw), f"malformed request ({kind})")


# ---------------------------------------------------------------------------- NIW
def _sample(case, T, mu, S):
    L = np.linalg.cholesky(S)
    X = mu + case.normal(T, len(mu)) @ L.T + case.unit(len(mu)) * 0.05
    return X


def _stat(X):
    m = X.mean(axis=0)
    return m, (X - m).T @ (X - m) / len(X)


def _pooled(t0, m0, nu0, S0, T, m, S):
    """Conjugate update through the natural parameters (sums of first and second moments)."""
    T1, nu1 = t0 + T, nu0 + T
    first = t0 * m0 + T * m
    second = nu0 * S0 + t0 * np.outer(m0, m0) + T * (S + np.outer(m, m))
    m1 = first / T1
    return T1, m1, nu1, (second - T1 * np.outer(m1, m1)) / nu1


def _count(case, lo, hi):
    return case.choice([float(case.int(int(lo), int(hi))), case.int(int(lo), int(hi)), case.float(lo + 0.1, hi)])


@facet("C31", quick=1500, rule="drawn prior, counts (whole and fractional), sample summary and containers; hyper-parameters compared with the update in natural parameters, every derived quantity with its formula")
def update_and_derived(case):
    from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior
    from pyvallocation import moments as M
    n, m0, S0, lab = _setup(case, nmin=1)
    _, Ss = moments(case, n)
    ms = m0 + case.unit(n) * 0.1
    t0, nu0, T = _count(case, 1, 60), _count(case, 0, 60), case.int(3, 200)
    if case.chance(0.1):                                        # hardly any degrees of freedom
        nu0, T = case.float(1.05, 2.0), case.int(1, 2)
    pmu = pd.Series(m0, index=lab) if lab else m0
    pS = _frame(S0, lab)
    smu, sS = _vec(case, ms, lab), _frame(Ss, lab)
    if isinstance(smu, list):
        smu = np.array(smu)
    if lab and case.bool():                                     # rows and columns in their own orders
        o = case.perm(n)
        sS = sS.iloc[o, case.choice([o, list(range(n)), case.perm(n)])]
        if case.chance(0.3):
            sS = sS.loc[lab]
    case.note(prior=m0, t0=t0, nu0=nu0, T=T, labels=lab)
    kw = dict(prior_mu=pmu, prior_sigma=pS, t0=t0, nu0=nu0)
    upd = dict(sample_mu=smu, sample_sigma=sS, n_obs=T)
    T1, m1, nu1, S1 = _pooled(t0, m0, nu0, S0, T, ms, Ss)
    niw = NIWPosterior(**kw)
    post = niw.update(**upd)
    tol = dict(rtol=1e-8, atol=1e-12)
    case.close(post.T1, T1, "T1", **tol)
    case.close(post.nu1, nu1, "nu1", **tol)
    case.close(post.mu1, m1, "mu1", **tol)
    case.close(post.sigma1, S1, "Sigma1", **tol)
    Smu = nu1 / (T1 * (nu1 - 2)) * S1
    ce = nu1 / (nu1 + n + 1) * S1
    pl, ps = case.float(0.05, 0.99), case.float(0.05, 0.99)
    rmu = np.sqrt(chi2.ppf(pl, n) / T1 * nu1 / (nu1 - 2))
    rsg = nu1 / (nu1 + n + 1) + np.sqrt(2 * nu1 ** 2 * chi2.ppf(ps, n * (n + 1) / 2) / (nu1 + n + 1) ** 3)
    rb = RobustBayesPosterior.from_niw(**kw, **upd)
    f2, f3 = M.posterior_moments_niw(**kw, **upd), M.posterior_moments_niw_with_uncertainty(**kw, **upd)
    for what, got, want in [("mu_ce", niw.get_mu_ce(), m1), ("S_mu", niw.get_S_mu(), Smu), ("sigma_ce", niw.get_sigma_ce(), ce),
                            ("posterior mu", rb.mu, m1), ("posterior sigma", rb.sigma, ce), ("posterior s_mu", rb.s_mu, Smu), ("sigma1", rb.sigma1, S1),
                            ("function mu", f2[0], m1), ("function sigma", f2[1], ce), ("function3 mu", f3[0], m1), ("function3 sigma", f3[1], ce), ("function3 s_mu", f3[2], Smu),
                            ("radius mu", niw.cred_radius_mu(pl), rmu), ("radius sigma", niw.cred_radius_sigma_factor(ps), rsg),
                            ("bundle radius mu", rb.cred_radius_mu(pl), rmu), ("bundle radius sigma", rb.cred_radius_sigma_factor(ps), rsg)]:
        case.close(got, want, what, **tol)
        if lab and np.ndim(want):
            case.check(list(got.index) == lab and (np.ndim(want) == 1 or list(got.columns) == lab), f"{what}: labels", got=list(got.index))
    h = case.choice([1.0, 12.0, 252.0, 0.25])
    h = h if np.max(np.abs(m1)) * h < 5 else 1.0
    case.close(rb.mean_uncertainty_cov_log(annualization_factor=h), h ** 2 * Smu, "log mean uncertainty", **tol)
    J = np.exp(h * m1)
    case.close(np.asarray(rb.mean_uncertainty_cov_simple(annualization_factor=h)) / np.outer(J, J), h ** 2 * Smu, "simple mean uncertainty", **tol)
    J = np.exp(h * m1 + 0.5 * h * np.diag(ce))
    case.close(np.asarray(rb.mean_uncertainty_cov_simple(annualization_factor=h, exact=True)) / np.outer(J, J), h ** 2 * Smu, "exact simple mean uncertainty", **tol)
    case.nontrivial(n > 1)


@facet("C31", quick=700, rule="history: the sample split into 2-5 batches, updated one after another in a drawn order; equals one pooled update")
def batches_commute(case):
    from pyvallocation.bayesian import NIWPosterior
    n, m0, S0, lab = _setup(case, 4)
    k = case.int(2, 5)
    sizes = [case.int(n + 1, max(15, 2 * n)) for _ in range(k)]
    t0, nu0 = _count(case, 1, 30), _count(case, 0, 30)
    X = [_sample(case, s, m0, S0) for s in sizes]
    case.note(sizes=sizes, t0=t0, nu0=nu0, labels=lab)

    def run(order):
        mu = pd.Series(m0, index=lab) if lab else m0
        S, t, v = _frame(S0, lab), t0, nu0
        for i in order:
            m, C = _stat(X[i])
            nw = NIWPosterior(mu, S, t, v)
            p = nw.update(pd.Series(m, index=lab) if lab else m, _frame(C, lab), len(X[i]))
            mu, S, t, v = p.mu1, p.sigma1, p.T1, p.nu1
        return float(t), np.asarray(mu, float), float(v), np.asarray(S, float)
    a, b = run(range(k)), run(case.perm(k))
    Z = np.vstack(X)
    m, C = _stat(Z)
    want = _pooled(t0, m0, nu0, S0, len(Z), m, C)
    for what, x, y, w in zip(["T1", "mu1", "nu1", "Sigma1"], a, b, want):
        case.close(x, w, f"{what}: batches vs pooled", rtol=1e-7, atol=1e-11)
        case.close(y, w, f"{what}: other batch order vs pooled", rtol=1e-7, atol=1e-11)
    case.nontrivial(k >= 2)


@facet("C31", quick=300, rule="invalid counts, shapes, labels, probability levels and calls out of order", min_nontrivial=0.5)
def invalid_rejected(case):
    from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior, chi2_quantile
    n, mu, S, lab = _setup(case)
    pm, pS = (pd.Series(mu, index=lab) if lab else mu), _frame(S, lab)
    kind = case.choice(["t0", "nu0", "n_obs", "before", "twice", "p", "nu1", "labels", "shape", "radius of plain bundle", "chi2", "indefinite"])
    case.event(kind)
    mk = lambda t0=5, nu0=5: NIWPosterior(pm, pS, t0, nu0)

    def up(**k):
        x = mk(**k)
        x.update(pm, pS, k.get("n", 10))
        return x
    if kind == "t0":
        case.raises(lambda: mk(t0=case.choice([0, -1, -0.5])), "t0 <= 0", ValueError)
    elif kind == "nu0":
        case.raises(lambda: mk(nu0=-1), "nu0 < 0", ValueError)
    elif kind == "n_obs":
        case.raises(lambda: mk().update(pm, pS, case.choice([0, -3])), "n_obs <= 0", ValueError)
    elif kind == "before":
        x = mk()
        for fn in (x.get_mu_ce, x.get_S_mu, x.get_sigma_ce, lambda: x.cred_radius_mu(0.5), lambda: x.cred_radius_sigma_factor(0.5)):
            case.raises(fn, "accessor before update", RuntimeError)
    elif kind == "twice":
        x = up()
        before = np.array(x.get_mu_ce(), float)
        case.raises(lambda: x.update(pm, pS, 5), "second update", RuntimeError)
        case.close(x.get_mu_ce(), before, "refused update changed the posterior")
    elif kind == "p":
        x = up()
        p = case.choice([0.0, 1.0, -0.1, 1.5])
        case.raises(lambda: x.cred_radius_mu(p), "p_mu", ValueError)
        case.raises(lambda: x.cred_radius_sigma_factor(p), "p_sigma", ValueError)
    elif kind == "nu1":
        x = mk(nu0=0)
        x.update(pm, pS, case.choice([1, 2]))
        case.raises(x.get_S_mu, "S_mu needs nu1 > 2", ValueError)
        case.raises(lambda: x.cred_radius_mu(0.5), "radius needs nu1 > 2", ValueError)
    elif kind == "labels":
        L = lab or [f"a{i}" for i in range(n)]
        other = [f"z{i}" for i in range(n)]
        x = NIWPosterior(pd.Series(mu, index=L), pd.DataFrame(S, index=L, columns=L), 5, 5)
        case.raises(lambda: x.update(pd.Series(mu, index=other), S, 5), "foreign sample labels", ValueError)
        case.raises(lambda: x.update(mu, pd.DataFrame(S, index=other, columns=other), 5), "foreign sample labels", ValueError)
        case.raises(lambda: NIWPosterior(pd.Series(mu, index=L), pd.DataFrame(S, index=other, columns=other), 5, 5), "foreign prior labels", ValueError)
    elif kind == "shape":
        case.raises(lambda: mk().update(np.append(mu, 0.0), pS, 5), "sample_mu length", ValueError)
        case.raises(lambda: mk().update(np.array(mu), S[:, :-1], 5), "sample_sigma shape", ValueError)
        case.raises(lambda: NIWPosterior(mu, S[:, :-1], 5, 5), "prior_sigma shape", ValueError)
    elif kind == "radius of plain bundle":
        x = RobustBayesPosterior(mu=mu, sigma=S, s_mu=S / 10)
        for fn in (lambda: x.sigma1, x.cred_radius_mu, x.cred_radius_sigma_factor):
            case.raises(fn, "needs NIW parameters", ValueError)
    elif kind == "chi2":
        case.raises(lambda: chi2_quantile(case.choice([0.0, 1.0, -1.0]), n), "quantile level", ValueError)
    else:
        v = np.ones(n) / np.sqrt(n)
        bad = S - 5 * np.trace(S) * np.outer(v, v)
        case.raises(lambda: NIWPosterior(mu, bad, 5, 5), "indefinite prior covariance")
        case.raises(lambda: mk().update(np.array(mu), bad, 5), "indefinite sample covariance")
    case.note(kind=kind)
