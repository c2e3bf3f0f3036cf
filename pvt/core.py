"""Case source, facets and violations.

A *facet* is one executable statement of (part of) a property.  Its body receives a `Case`, draws every
input through it, and raises `Violation` (via `case.check*`) when the oracle disagrees with the library.
All randomness comes through `Case`, either from Hypothesis or from a seeded generator with boundary bias;
the drawn primitives are recorded so that a failing case replays without either, and the second kind is
shrunk by editing the record (`shrink`).
"""
from __future__ import annotations
import hashlib, json, math, struct, time
from collections import Counter
import numpy as np
import pandas as pd
from scipy.special import ndtri


class Violation(AssertionError):
    pass


class Reject(Exception):
    """Case outside the facet's domain (counted, used sparingly)."""


FACETS = {}          # prop -> list of Facet


class Journal:
    """Shared-memory copy of the current case's draws, readable after the process died."""

    def __init__(self, size=1 << 20):
        import mmap
        self.m, self.size, self.pos = mmap.mmap(-1, size), size, 0
        self.clock = mmap.mmap(-1, 8)

    def beat(self):
        self.clock[0:8] = struct.pack("d", time.monotonic())

    def idle(self):
        """Seconds since the worker last started a case (None before the first)."""
        t = struct.unpack("d", self.clock[0:8])[0]
        return time.monotonic() - t if t else None

    def reset(self):
        self.pos = 0
        self.m[0:1] = b"\0"
        self.beat()

    def add(self, item):
        b = json.dumps(item).encode() + b"\n"
        if self.pos + len(b) + 1 < self.size:
            self.m[self.pos:self.pos + len(b)] = b
            self.pos += len(b)
            self.m[self.pos:self.pos + 1] = b"\0"

    def read(self):
        raw = self.m[:]
        return [json.loads(x) for x in raw[: raw.index(b"\0")].decode().splitlines()]


JOURNAL = None


class Facet:
    def __init__(self, prop, name, fn, quick, thorough, rule, min_nontrivial):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.min_nontrivial = min_nontrivial


def facet(prop, quick=200, thorough=None, rule="", min_nontrivial=0.2):
    def deco(fn):
        f = Facet(prop, fn.__name__, fn, quick, thorough or quick * 12, rule or (fn.__doc__ or "").strip(), min_nontrivial)
        FACETS.setdefault(prop, []).append(f)
        return fn
    return deco


def _jsonable(x, depth=0):
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return _jsonable(x.item())
    if isinstance(x, np.ndarray):
        if x.size > 80:
            return {"shape": list(x.shape), "head": _jsonable(np.ravel(x)[:12].tolist())}
        return _jsonable(np.round(x.astype(float), 10).tolist() if x.dtype.kind == "f" else x.tolist())
    if isinstance(x, pd.DataFrame):
        return {"index": [str(i) for i in x.index[:12]], "columns": [str(c) for c in x.columns], "values": _jsonable(x.to_numpy())}
    if isinstance(x, pd.Series):
        return {str(k): _jsonable(v) for k, v in list(x.items())[:40]}
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    return repr(x)[:200]


class Case:
    """Wraps a Hypothesis data object, a random generator or a recorded list of draws with domain generators."""

    def __init__(self, data=None, replay=None, rng=None, lenient=False):
        self._data, self._replay, self._pos = data, replay, 0
        self._rng, self._lenient = rng, lenient
        if JOURNAL is not None:
            JOURNAL.reset()
        self.draws = []          # recorded primitives
        self.notes = {}
        self.events = Counter()
        self.is_nontrivial = True
        self.inconclusive = 0

    # ---- primitives ---------------------------------------------------
    def _draw(self, kind, make, low, fit, sample):
        if self._replay is not None:
            if self._lenient:
                v = low
                if self._pos < len(self._replay):
                    k, r = self._replay[self._pos]
                    v = fit(r) if k == kind else low
            else:
                k, v = self._replay[self._pos]
                assert k == kind, f"replay mismatch {k}!={kind}"
            self._pos += 1
            self.draws.append((kind, v))
            return bytes.fromhex(v) if kind == "b" else v
        v = sample(self._rng) if self._rng is not None else self._data.draw(make())
        self.draws.append((kind, v.hex() if kind == "b" else v))
        if JOURNAL is not None:
            JOURNAL.add(self.draws[-1])
        return v

    def int(self, lo, hi):
        if lo == hi:
            return lo

        def make():
            from hypothesis import strategies as st
            return st.integers(lo, hi)

        def sample(r):
            if hi - lo > 8 and hi - lo != 999:           # 999: `chance`, whose odds are kept
                u = r.random()
                if u < 0.06:
                    return lo
                if u < 0.10:
                    return hi
                if u < 0.16 and hi - lo > 1000:
                    return lo + (hi - lo) * r.randrange(0, 17) // 16
            return r.randint(lo, hi)
        return self._draw("i", make, lo, lambda v: min(max(v, lo), hi), sample)

    def size(self, lo, hi, big=None):
        """A small size, now and then one well beyond the usual (code may treat large inputs apart)."""
        if self.chance(0.04):
            return self.int(hi + 1, big or (4 * hi if hi <= 10 else 6 * hi))
        return self.int(lo, hi)

    def bool(self):
        def make():
            from hypothesis import strategies as st
            return st.booleans()
        return self._draw("t", make, False, bool, lambda r: r.random() < 0.5)

    def chance(self, p):
        """True with probability ~p (shrinks to False)."""
        return self.int(0, 999) >= 1000 - int(round(p * 1000))

    def bytes(self, n):
        if n == 0:
            return b""

        def make():
            from hypothesis import strategies as st
            return st.binary(min_size=n, max_size=n)
        return self._draw("b", make, "00" * n, lambda v: (v + "00" * n)[: 2 * n], lambda r: r.randbytes(n))

    def choice(self, options):
        options = list(options)
        return options[self.int(0, len(options) - 1)]

    def perm(self, n):
        """Permutation of range(n) (shrinks towards identity)."""
        idx = list(range(n))
        for i in range(n - 1):
            j = self.int(i, n - 1)
            idx[i], idx[j] = idx[j], idx[i]
        return np.array(idx, dtype=int)

    def float(self, lo, hi):
        """Uniform on [lo, hi] on a 2^-30 grid; occasionally an endpoint or a round value."""
        k = self.int(0, 2 ** 30)
        return lo + (hi - lo) * (k / 2 ** 30)

    def logfloat(self, lo, hi):
        return float(math.exp(self.float(math.log(lo), math.log(hi))))

    # ---- arrays ---------------------------------------------------------
    def s16(self, n):
        return np.frombuffer(self.bytes(2 * n), dtype=">i2").astype(float) if n else np.zeros(0)

    def unit(self, *shape):
        """Uniform(-1,1) array; zero bytes give zeros."""
        n = int(np.prod(shape))
        return (self.s16(n) / 32768.0).reshape(shape)

    def uniform(self, lo, hi, *shape):
        return lo + (hi - lo) * (self.unit(*shape) + 1.0) / 2.0

    def normal(self, *shape):
        n = int(np.prod(shape))
        return ndtri((self.s16(n) + 32768.5) / 65536.0).reshape(shape)

    # ---- bookkeeping ------------------------------------------------------
    def note(self, **kw):
        self.notes.update(kw)

    def event(self, name, flag=True):
        if flag:
            self.events[str(name)] += 1

    def nontrivial(self, flag):
        self.is_nontrivial = bool(flag)

    def reject(self):
        raise Reject()

    def digest(self):
        return hashlib.blake2b(json.dumps(self.draws).encode(), digest_size=8).hexdigest()

    # ---- oracles ---------------------------------------------------------
    def fail(self, msg, **kw):
        self.note(**kw)
        raise Violation(msg)

    def check(self, cond, msg, **kw):
        if not bool(cond):
            self.fail(msg, **kw)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12):
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(f"{msg}: shape {g.shape} != expected {w.shape}", got=g, want=w)
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=False)
        if not np.all(ok):
            err = float(np.nanmax(np.abs(g - w))) if g.size else 0.0
            self.fail(f"{msg}: max abs difference {err:.3g} (rtol={rtol:g}, atol={atol:g})", got=g, want=w)

    def raises(self, fn, msg, types=Exception, allow=None):
        """`fn` must raise one of `types`."""
        try:
            out = fn()
        except types:
            return
        except Exception as exc:                        # wrong type
            self.fail(f"{msg}: raised {type(exc).__name__} instead of {types}", error=str(exc)[:300])
        self.fail(f"{msg}: returned instead of raising", returned=out)


def shrink(run, draws, seconds=25.0):
    """Smaller record of draws on which `run(Case)` still reports a violation (greedy, lenient replay)."""
    import time
    end = time.time() + seconds
    size = lambda d: (len(d), sum(len(v.rstrip("0")) if k == "b" else min(abs(int(v)), 1 << 40).bit_length() for k, v in d))
    best = list(draws)
    best_case = None

    def attempt(cand):
        nonlocal best, best_case
        case = Case(replay=cand, lenient=True)
        try:
            bad = run(case)
        except Exception:
            return False
        if bad and size(case.draws) < size(best):
            best, best_case = case.draws, case
            return True
        return False

    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(best)):
            if i >= len(best) or time.time() > end:
                break
            k, v = best[i]
            if k == "b":
                n = len(v)
                opts = ["0" * n, v[: n // 2 // 4 * 4] + "0" * (n - n // 2 // 4 * 4), "0" * (n // 2 // 4 * 4) + v[n // 2 // 4 * 4:]]
                opts += [v[:j] + "0000" + v[j + 4:] for j in range(0, min(n, 64), 4)]
            elif k == "t":
                opts = [False]
            else:
                opts = [-(1 << 60), v // 2, v - v % (1 << 20), v - 1]
            for o in opts:
                if o != v and attempt(best[:i] + [(k, o)] + best[i + 1:]):
                    changed = True
                    break
    return best, best_case
