"""C15 C16: discrete allocation."""
import itertools
import numpy as np
import pandas as pd
from .core import facet
from .gen import names
from .c_mv import lib


def _quiet():
    """HiGHS prints debug lines on fd 1; the workers only use files and pipes, so nothing to do."""


def _problem(case, nmax=5, *, lo=0.02, hi=0.6, shorts=True, exact=True, large=False):
    n = case.size(1, nmax) if large else case.int(1, nmax)
    w = np.round(case.uniform(0.02, 1.0, n), case.choice([2, 6]))
    w = np.maximum(w, 0.01)
    w = w / w.sum()
    short = shorts and n > 1 and case.chance(0.3)
    if short:
        i = case.int(0, n - 1)
        w[i] = -case.float(0.05, 0.9) * w.sum()
        w = w / abs(w.sum())
        if w.sum() <= 0:
            w = -w if (-w).sum() > 0 else np.abs(w)
    scale = case.choice([1.0, 1.0, 1.0, 2.5, 100.0, 1e-3])            # weights need not sum to one
    T = float(np.round(case.logfloat(50, case.choice([1e4, 1e6, 1e9])), 2))
    coin = case.choice([1.0] * 9 + [1e-4])                            # budgets counted in a large unit
    T = T * coin
    lots = np.array([case.choice([1, 1, 2, 5, 10, 100, case.choice([1000, 2500, 25000])]) for _ in range(n)])
    cost = T * np.exp(case.uniform(np.log(lo), np.log(hi), n))
    mode = case.int(0, 3)
    if exact and mode == 3:
        cost = np.abs(w) / w.sum() * T / np.array([case.int(1, 12) for _ in range(n)])        # whole lots hit the targets
    px = cost / lots
    if mode != 3 and case.bool():
        px = np.maximum(np.round(px / coin, 2), 0.01) * coin
    lab = names(case, n)
    if isinstance(lab[0], int):
        lab = [f"A{x}" for x in lab]
    return n, w, w * scale, T, px, lots, lab, short


def _args(case, n, ws, px, lots, lab):
    """Weights, prices and lots in independent orders and containers; prices may hold extra assets."""
    def wrap(v, extra=()):
        s = pd.Series(v, index=lab).iloc[case.perm(n)]
        for k, x in extra:
            s[k] = x
        return s if case.bool() else s.to_dict()
    weights = wrap(ws, [("zero", 0.0)] if case.chance(0.2) else [])
    prices = wrap(px, [("zero", 3.0), ("other", 7.0)])
    if np.all(lots == 1) and case.bool():
        lot = None
    else:
        drop = [a for a, k in zip(lab, lots) if k == 1 and case.bool()]          # missing lots mean one share
        s = pd.Series(lots, index=lab).drop(drop)
        lot = s if case.bool() else {k: int(v) for k, v in s.items()}
        if len(s) == 0:
            lot = None
    return weights, prices, lot


def _check_result(case, res, w, T, px, lots, lab, what):
    w = w / w.sum()
    case.check(set(res.shares) <= set(lab), f"{what}: unknown asset held", shares=res.shares)
    x = np.array([res.shares.get(a, 0) for a in lab])
    for a in res.shares.values():
        case.check(isinstance(a, int) and a != 0, f"{what}: share count {a!r}")
    case.check(np.all(x % lots == 0), f"{what}: not whole lots", shares=res.shares, lots=lots)
    case.check(np.all(x[w > 0] >= 0), f"{what}: short holding of a long target", shares=res.shares)
    v = x * px
    case.check(v.sum() <= T * (1 + 2e-8) + 1e-8, f"{what}: spends {v.sum()} of {T}")
    case.close(res.leftover_cash, max(T - v.sum(), 0.0), f"{what}: leftover cash", rtol=1e-9, atol=2e-8 * max(T, 1.0))
    case.check(res.leftover_cash >= 0, f"{what}: negative cash")
    ach = res.achieved_weights
    case.check(set(lab) <= set(ach.index), f"{what}: achieved weights lack assets")
    case.close(ach.loc[lab].to_numpy(), v / T, f"{what}: achieved weights", rtol=1e-9, atol=1e-12)
    case.close(res.tracking_error, np.abs(w - v / T).sum(), f"{what}: tracking error", rtol=1e-8, atol=1e-9)
    s = res.as_series()
    case.check(dict(s) == dict(res.shares), f"{what}: as_series")
    return x, v


@facet("C15", quick=2500, rule="drawn weights (shorts, unnormalised, zero entries), prices, lots, budgets to 1e9 in independent orders/containers; every figure recomputed from the holdings; non-trivial = something held and cash left")
def allocations_conserve_money(case):
    pv = lib()
    n, w, ws, T, px, lots, lab, short = _problem(case, large=True)
    weights, prices, lot = _args(case, n, ws, px, lots, lab)
    meth = case.choice(["greedy", "rounddown", "Greedy", "milp"]) if n <= 5 else "greedy"
    kw = {}
    if meth == "milp":
        kw = case.choice([{}, dict(cash_penalty=case.choice([0.0, 0.5, 3.0]))])
    elif case.chance(0.3):
        kw = dict(max_iterations=case.choice([0, 1, 2]), fallback_mode=case.choice(["none", "auto", "milp"]) if n <= 5 else "none")
    case.note(weights=dict(weights), prices=dict(prices), lots=None if lot is None else dict(lot), total=T, method=meth, **kw)
    res = pv.discretize_weights(weights, prices, T, method=meth, lot_sizes=lot, **kw)
    x, v = _check_result(case, res, w, T, px, lots, lab, meth)
    case.event("short", short)
    case.event(f"method {meth}")
    case.nontrivial(np.any(x != 0) and res.leftover_cash > 1e-6 * T)


@facet("C15", quick=1500, rule="one defect in otherwise valid inputs must raise")
def invalid_inputs_rejected(case):
    pv = lib()
    n, w, ws, T, px, lots, lab, short = _problem(case, shorts=False)
    j = case.int(0, n - 1)
    meth = case.choice(["greedy", "milp"])
    ws, px = ws.copy(), px.copy()
    lot = {a: int(k) for a, k in zip(lab, lots)}
    how = case.choice(["price0", "price-", "pricenan", "priceinf", "total0", "total-", "totalnan", "totalinf", "lot0", "lot-", "lothalf",
                       "missing", "wnan", "winf", "wzero", "wneg", "method", "type", "empty"])
    idx = list(lab)
    if how.startswith("price"):
        px[j] = {"0": 0.0, "-": -1.0, "nan": np.nan, "inf": np.inf}[how[5:]]
    elif how.startswith("total"):
        T = {"0": 0.0, "-": -5.0, "nan": np.nan, "inf": np.inf}[how[5:]]
    elif how.startswith("lot"):
        lot[lab[j]] = {"0": 0, "-": -2, "half": 1.5}[how[3:]]
        lot = lot if case.bool() else pd.Series(lot)
    elif how in ("wnan", "winf"):
        ws[j] = float(how[1:])
    elif how == "wzero":
        ws[:] = 0.0
    elif how == "wneg":
        ws = -ws
    W, P = pd.Series(ws, index=lab), pd.Series(px, index=lab)
    if how == "missing":
        P = P.rename({lab[j]: "other"})
    if how == "type":
        W = ws
    if how == "empty":
        W = {} if case.bool() else W.iloc[:0]
    if how == "method":
        meth = "nope"
    case.note(how=how, method=meth, total=T)
    case.event(how)
    case.raises(lambda: pv.discretize_weights(W, P, T, method=meth, lot_sizes=lot), f"invalid input ({how})", (ValueError, TypeError))


def _brute(t, ppl, T, pen, max_cash, signs, tol):
    """Best objective over all affordable whole-lot holdings respecting target signs; also with the ceiling relaxed by tol."""
    reach = 1.0 if np.all(signs > 0) else 2 * np.abs(t).sum() / T + max(pen, 1.0)
    rng = []
    for c, s in zip(ppl, signs):
        k = int(np.floor(reach * T / c)) + 1
        rng.append(np.arange(0, k + 1) if s > 0 else np.arange(-k, k + 1))
    X = np.stack(np.meshgrid(*rng, indexing="ij"), axis=-1).reshape(-1, len(t))
    V = X * ppl
    r = T - V.sum(axis=1)
    obj = np.abs(V - t).sum(axis=1) + pen * np.maximum(r, 0)
    ok = r >= -1e-9 * T
    if max_cash is None:
        return obj[ok].min(), obj[ok].min()
    a, b = ok & (r <= max_cash - tol), ok & (r <= max_cash + tol)
    return (obj[a].min() if a.any() else None), (obj[b].min() if b.any() else None)


@facet("C16", quick=1200, rule="1-3 assets, penalties, cash ceilings, shorts; exhaustive enumeration of every affordable whole-lot holding; non-trivial = rounding every target down is not optimal or the ceiling/penalty binds")
def milp_beats_every_holding(case):
    pv = lib()
    short_ok = case.chance(0.4)
    n, w, ws, T, px, lots, lab, short = _problem(case, 3, lo=0.25 if short_ok else 0.07, shorts=short_ok)
    if short and np.abs(w).sum() > 4:
        case.reject()
    pen = case.choice([1.0, 1.0, 0.0, 0.3, 2.0] + ([] if short else [10.0]))
    ppl = px * lots
    maxc = None if case.chance(0.6) else float(case.choice([0.0, 0.02, 0.1, 0.3, 1.0])) * T
    weights, prices, lot = _args(case, n, ws, px, lots, lab)
    case.note(weights=dict(weights), prices=dict(prices), lots=None if lot is None else dict(lot), total=T, penalty=pen, max_cash=maxc)
    t = w * T
    tol = 4e-6 * T
    if np.prod(np.floor((2 * np.abs(w).sum() + max(pen, 1)) * T / ppl) * 2 + 2 if short else np.floor(T / ppl) + 2) > 4e5:
        case.reject()
    best, relaxed = _brute(t, ppl, T, pen, maxc, np.where(w < 0, -1, 1), tol)
    kw = dict(cash_penalty=pen) if pen != 1.0 or case.bool() else {}
    if maxc is not None:
        kw["max_cash"] = maxc
    call = lambda: pv.discretize_weights(weights, prices, T, method=case_meth, lot_sizes=lot, **kw)
    case_meth = case.choice(["milp", "mip", "integer", "MILP"])
    if relaxed is None:
        case.raises(call, "no affordable holding keeps that little cash", RuntimeError)
        case.event("ceiling unattainable")
        return
    try:
        res = call()
    except RuntimeError:
        if best is None:
            return case.event("ceiling borderline")
        raise
    x, v = _check_result(case, res, w, T, px, lots, lab, "milp")
    r = T - v.sum()
    if maxc is not None:
        case.check(r <= maxc + tol, f"cash {r} above the ceiling {maxc}")
    obj = np.abs(v - t).sum() + pen * max(r, 0)
    case.check(best is None or obj <= best + 2e-4 * abs(best) + 4e-6 * T * (1 + pen), f"another whole-lot holding is better: {best} < {obj}", shares=res.shares)
    case.event("short", short)
    down = np.floor(t / ppl) * ppl
    case.nontrivial(np.abs(down - t).sum() + pen * max(T - down.sum(), 0) > obj + 1e-6 * T)


@facet("C16", quick=1500, rule="drawn long-only problems (exact-lot targets included): greedy holds at least the whole lots the target value pays for; non-trivial = some asset has a whole lot and some remainder")
def greedy_never_below_floor(case):
    pv = lib()
    n, w, ws, T, px, lots, lab, short = _problem(case, 6, lo=0.002, shorts=False, large=True)
    weights, prices, lot = _args(case, n, ws, px, lots, lab)
    kw = {} if n > 6 or case.bool() else dict(fallback_mode=case.choice(["none", "auto", "milp"]))
    case.note(weights=dict(weights), prices=dict(prices), lots=None if lot is None else dict(lot), total=T, **kw)
    res = pv.discretize_weights(weights, prices, T, method=case.choice(["greedy", "rounddown"]), lot_sizes=lot, **kw)
    x, v = _check_result(case, res, w, T, px, lots, lab, "greedy")
    need = np.floor(w * T / (px * lots) - 1e-7).clip(0).astype(int) * lots
    case.check(np.all(x >= need), "greedy holds less than the whole lots the target pays for", held=x, floor=need)
    # a lot of an under-held asset that fits the cash is bought (the documented top-up)
    cost = px * lots
    under = (w * T - v) > 1e-6 * T
    case.check(not np.any(under & (cost <= res.leftover_cash - 1e-6 * T)), "cash left although an under-held asset's lot fits", held=x, cash=res.leftover_cash, lot_costs=cost)
    case.nontrivial(np.any(need > 0) and np.any(w * T - need * px > 1e-3 * T))


@facet("C16", quick=600, rule="6-20 assets whose lots cost from next to nothing to a third of the budget, plain greedy without fallback: no under-held asset's lot fits the remaining cash and at most one lot is bought beyond a target; non-trivial = at least three lots did not fit", min_nontrivial=0.2)
def greedy_top_up_exhausts_the_cash(case):
    pv = lib()
    n = case.int(6, 20)
    w = case.uniform(0.02, 1.0, n)
    w = w / w.sum()
    T = case.choice([1000.0, 5e4, 1e6])
    cost = T * np.exp(case.uniform(np.log(5e-4), np.log(0.35), n))
    lots = np.array([case.choice([1, 1, 5, 100]) for _ in range(n)])
    px = cost / lots
    lab = [f"A{i}" for i in range(n)]
    weights, prices, lot = _args(case, n, w, px, lots, lab)
    case.note(weights=dict(weights), prices=dict(prices), lots=None if lot is None else dict(lot), total=T)
    res = pv.discretize_weights(weights, prices, T, lot_sizes=lot, fallback_mode="none")
    x, v = _check_result(case, res, w, T, px, lots, lab, "greedy")
    under = (w * T - v) > 1e-6 * T
    case.check(not np.any(under & (cost <= res.leftover_cash - 1e-6 * T)), "cash left although an under-held asset's lot fits", held=x, cash=res.leftover_cash, lot_costs=cost)
    case.check(np.all(v < w * T + cost * (1 + 1e-9)), "more than one lot beyond the target", held=x)
    case.nontrivial(np.sum(under & (cost > res.leftover_cash)) >= 3)


@facet("C16", quick=400, rule="short targets through the greedy entry with allocator options: the options reach the integer allocation, so holdings and figures equal those of method milp with the same options, impossible ceilings included; non-trivial = an option changes the holdings")
def greedy_hands_its_options_on(case):
    pv = lib()
    n = case.int(2, 4)
    w = case.uniform(0.1, 1.0, n)
    w[case.int(0, n - 1)] *= -0.4
    if w.sum() <= 0.05:
        case.reject()
    w = w / w.sum()
    T = 1000.0
    px = np.round(case.uniform(40, 300, n), 2)
    lab = names(case, n)
    W, P = pd.Series(w, index=lab), pd.Series(px, index=lab)
    kw = case.choice([dict(max_cash=case.choice([5.0, 30.0, 100.0])), dict(cash_penalty=case.choice([0.0, 3.0])), dict(max_cash=60.0, cash_penalty=0.0)])
    case.note(weights=w, prices=px, total=T, options=kw)
    plain = pv.discretize_weights(W, P, T, method="milp")
    try:
        want = pv.discretize_weights(W, P, T, method="milp", **kw)
    except RuntimeError:
        case.raises(lambda: pv.discretize_weights(W, P, T, fallback_kwargs=kw), "an impossible cash ceiling", RuntimeError)
        return case.event("impossible")
    got = pv.discretize_weights(W, P, T, fallback_kwargs=dict(kw))
    case.check(got.shares == want.shares, "options given to the greedy entry are not those of the integer allocation", got=got.shares, want=want.shares)
    case.nontrivial(want.shares != plain.shares)


@facet("C16", quick=400, rule="budgets a hair above or below the exact price of whole lots: never a lot the budget does not pay for, and the same figures recomputed; non-trivial = the budget is just short")
def budgets_at_the_edge_of_a_lot(case):
    pv = lib()
    n = case.int(1, 4)
    k = np.array([case.int(1, 400) for _ in range(n)])
    px = np.round(case.uniform(0.5, 500, n), 2)
    v = k * px
    d = case.choice([1e-7, 3e-7, 1e-8, 1e-6, 0.0]) * case.choice([-1, 1])
    T = float(v.sum() * (1 + d))
    w = v / v.sum()
    lab = names(case, n)
    W, P = pd.Series(w, index=lab), pd.Series(px, index=lab)
    case.note(weights=w, prices=px, total=T, short_by=d)
    res = pv.discretize_weights(W, P, T, fallback_mode="none")
    x, spent = _check_result(case, res, w, T, px, np.ones(n, int), lab, "greedy")
    case.check(np.all(x <= k) if d <= 0 else True, "bought a share the budget does not pay for", held=x)
    case.check(spent.sum() <= T * (1 + 1e-8) + 1e-9, "spends more than the budget")
    case.nontrivial(d < 0)


@facet("C16", quick=150, rule="5-8 assets at drawn prices, and problems on which HiGHS once rejected its own optimum: an allocation is returned, at least as good as the greedy one and as every single-lot change of itself; non-trivial = better than greedy", min_nontrivial=0.05)
def milp_on_larger_problems(case):
    pv = lib()
    hard = case.chance(0.06)
    if hard:
        seed, n = case.choice([(29, 5), (1219, 6)])
        rng = np.random.default_rng(seed)
        w, px, T = rng.dirichlet(np.ones(n)), rng.uniform(20, 300, n), 1500.0
    else:
        n, T = (case.int(9, 14) if case.chance(0.15) else case.int(5, 8)), case.choice([1500.0, 20000.0])
        w, px = case.uniform(0.05, 1, n), case.uniform(20, 300, n)
        w = w / w.sum()
    lab = list("abcdefghijklmn")[:n]
    W, P = pd.Series(w, index=lab), pd.Series(px, index=lab)
    case.note(weights=w, prices=px, total=T)
    obj = lambda v: np.abs(v - w * T).sum() + T - v.sum()
    val = lambda r: np.array([r.shares.get(a, 0) for a in lab]) * px
    v = val(pv.discretize_weights(W, P, T, method="milp"))
    g = val(pv.discretize_weights(W, P, T))
    case.check(v.sum() <= T * (1 + 1e-9), "overspent")
    slack = 2e-4 * abs(obj(v)) + 8e-6 * T
    case.check(obj(v) <= obj(g) + slack, f"greedy is better: {obj(g)} < {obj(v)}")
    for i in range(n):
        for k in (-1, 1):
            x = v.copy()
            x[i] += k * px[i]
            if x[i] >= -1e-9 and x.sum() <= T:
                case.check(obj(v) <= obj(x) + slack, f"one share {'more' if k > 0 else 'less'} of {lab[i]} is better: {obj(x)} < {obj(v)}")
    for i in range(n):
        for j in range(n):
            x = v.copy()
            x[i], x[j] = x[i] + px[i], x[j] - px[j]
            if i != j and x[j] >= -1e-9 and x.sum() <= T:
                case.check(obj(v) <= obj(x) + slack, f"a share of {lab[i]} for one of {lab[j]} is better: {obj(x)} < {obj(v)}")
    case.event("recorded", hard)
    case.nontrivial(obj(v) < obj(g) - slack)
