from __future__ import annotations
import argparse, glob, hashlib, importlib, json, multiprocessing as mp, multiprocessing.connection, os, sys, time, traceback, warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PVT_REPO", "/repo")


def _paths():
    for p in (os.path.join(VERIF, ".deps"),):
        if os.path.isdir(os.path.join(p, "hypothesis")):
            sys.path.append(p)
    try:
        import hypothesis  # noqa
    except ImportError:
        for p in glob.glob("/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
            sys.path.append(p)
    sys.path.insert(0, REPO)


MODULES = {}          # property -> module name (without package)


def _load(prop):
    from . import registry
    for m in registry.MODULES[prop]:
        importlib.import_module("pvt." + m)
    from .core import FACETS
    return FACETS[prop]


def _from_library(exc):
    tb = exc.__traceback__
    root = os.path.realpath(os.path.join(REPO, "pyvallocation"))
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _run_case(facet, case):
    """Returns (kind, message, exc) with kind in ok|violation|reject|harness."""
    from .core import Violation, Reject
    import numpy as np
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            facet.fn(case)
        return "ok", None, None
    except Violation as exc:
        return "violation", str(exc), exc
    except Reject:
        return "reject", None, None
    except Exception as exc:
        if type(exc).__module__.startswith("hypothesis"):
            raise
        if _from_library(exc):
            msg = f"unexpected {type(exc).__name__} from the library on a valid input: {exc}"
            return "violation", msg[:600], exc
        if isinstance(exc, UNUSABLE):
            return "violation", f"the answer cannot be evaluated as documented ({type(exc).__name__}: {exc})"[:600], exc
        return "harness", "".join(traceback.format_exception(exc))[-3000:], exc


# what evaluating an answer of the wrong type, shape, size or labels raises in a check (never seen on a sound tree)
UNUSABLE = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError)
HANG = float(os.environ.get("PVT_HANG_S", "240"))     # cases take milliseconds; the slowest known one 3 s
HYPOTHESIS_SHARE = 0.4
NATIVE = {-4: "SIGILL", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}


def _worker(facet, n, seed, q, shard, journal):
    import logging
    from . import core
    core.JOURNAL = journal
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, strategies as st, assume
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = float(os.environ.get("PVT_SHRINK_S", "25"))
    from .core import Case, _jsonable
    stats = dict(evaluations=0, rejected=0, nontrivial=set(), events=Counter(), samples=[], inconclusive=0)
    state = dict(best=None, harness=None)

    class CaseFailed(AssertionError):
        pass

    t0 = time.time()

    def account(case, kind):
        stats["evaluations"] += 1
        stats["inconclusive"] += case.inconclusive
        if kind == "reject":
            stats["rejected"] += 1
            return
        stats["events"].update(case.events)
        if case.is_nontrivial:
            stats["nontrivial"].add(case.digest())
            if len(stats["samples"]) < 2 and stats["evaluations"] > 3:
                stats["samples"].append(_jsonable(case.notes))

    # first half: independent draws with boundary bias; second half: Hypothesis (mutation of earlier cases)
    import random
    rng = random.Random(seed)
    n_rng = n - int(n * HYPOTHESIS_SHARE)
    for _ in range(n_rng):
        case = Case(rng=random.Random(rng.getrandbits(64)))
        kind, msg, exc = _run_case(facet, case)
        account(case, kind)
        if kind == "harness":
            state["harness"] = msg
            break
        if kind == "violation":
            last = {}

            def bad(c):
                k, m, e = _run_case(facet, c)
                last.update(m=m, e=e)
                return k == "violation"
            core.JOURNAL = None
            small, c2 = core.shrink(bad, case.draws, float(os.environ.get("PVT_SHRINK_S", "25")))
            if c2 is not None:
                k2, m2, e2 = _run_case(facet, Case(replay=small))
                if k2 == "violation":
                    case = Case(replay=small)
                    _, msg, exc = _run_case(facet, case)
            state["best"] = dict(message=msg, draws=case.draws, notes=_jsonable(case.notes),
                                 trace="".join(traceback.format_exception(exc))[-1500:])
            break
    n = n - n_rng

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
    @given(st.data())
    def test(data):
        case = Case(data)
        kind, msg, exc = _run_case(facet, case)
        if state["best"] is None:
            account(case, kind)
        if kind == "reject":
            assume(False)
        if kind == "harness":
            if state["harness"] is None:
                state["harness"] = msg
            raise CaseFailed("harness")
        if kind == "violation":
            state["best"] = dict(message=msg, draws=case.draws, notes=_jsonable(case.notes),
                                 trace="".join(traceback.format_exception(exc))[-1500:])
            raise CaseFailed("violation")

    err = None
    try:
        if n and state["best"] is None and state["harness"] is None:
            test()
    except BaseException as exc:  # CaseFailed, Flaky, ...
        err = exc
    out = dict(facet=facet.name, shard=shard, evaluations=stats["evaluations"], rejected=stats["rejected"],
               nontrivial=list(stats["nontrivial"]), events=dict(stats["events"]), samples=stats["samples"],
               inconclusive=stats["inconclusive"], wall=time.time() - t0, violation=state["best"], harness=None)
    if state["best"] is None:
        if state["harness"] is not None:
            out["harness"] = state["harness"]
        elif err is not None:
            out["harness"] = "".join(traceback.format_exception(err))[-3000:]
    q.send(out)
    q.close()


def _seed_for(seed, prop, name, shard):
    h = hashlib.sha256(f"{seed}/{prop}/{name}/{shard}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def _write_replay(prop, facet, v, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{facet}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, facet=facet, seed=seed, tier=tier, message=v["message"], case=v["notes"],
                       draws=v["draws"], trace=v["trace"]), f, indent=1)
    return path


def _known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def check(prop, tier, seed, only=None, scale=1.0, jobs=None):
    t0 = time.time()
    facets = [f for f in _load(prop) if not only or f.name == only]
    import pyvallocation
    from . import core
    assert os.path.realpath(pyvallocation.__file__).startswith(os.path.realpath(REPO)), pyvallocation.__file__
    jobs = jobs or int(os.environ.get("PVT_JOBS", "0")) or min(8, os.cpu_count() or 1)
    tasks = []
    for f in facets:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        shards = max(1, min(8 if tier == "quick" else 32, n // 40))
        for s in range(shards):
            tasks.append((f, n // shards + (1 if s < n % shards else 0), s))
    tasks.sort(key=lambda t: t[2])
    ctx = mp.get_context("fork")
    running, results, lost, idx = {}, [], [], 0
    stop = False
    while running or (idx < len(tasks) and not stop):
        while idx < len(tasks) and len(running) < jobs and not stop:
            f, n, s = tasks[idx]
            rx, tx = ctx.Pipe(duplex=False)
            j = core.Journal()
            p = ctx.Process(target=_worker, args=(f, n, _seed_for(seed, prop, f.name, s), tx, s, j))
            p.start()
            tx.close()
            running[rx] = (f, s, p, j)
            idx += 1
        for rx in mp.connection.wait(list(running), timeout=5.0):
            f, s, p, j = running.pop(rx)
            try:
                r = rx.recv()
                results.append(r)
                stop = stop or bool(r["violation"])
            except EOFError:
                p.join()
                if p.exitcode in NATIVE:        # the code under test took the whole process down
                    v = dict(message=f"the process died with {NATIVE[p.exitcode]} inside the library on this case",
                             draws=j.read(), notes={}, trace="")
                    results.append(dict(facet=f.name, shard=s, evaluations=1, rejected=0, nontrivial=[], events={},
                                        samples=[], inconclusive=0, wall=0.0, violation=v, harness=None))
                    stop = True
                else:
                    lost.append((f.name, s, p.exitcode))
            p.join()
        if not stop:
            for rx, (f, s, p, j) in list(running.items()):
                if (j.idle() or 0) > HANG:
                    p.kill()
                    p.join()
                    running.pop(rx)
                    v = dict(message=f"a call of the library did not return within {HANG:.0f} s on this case",
                             draws=j.read(), notes={}, trace="")
                    results.append(dict(facet=f.name, shard=s, evaluations=1, rejected=0, nontrivial=[], events={},
                                        samples=[], inconclusive=0, wall=0.0, violation=v, harness=None))
                    stop = True
        if stop:
            for _, _, p, _ in running.values():
                p.kill()
                p.join()
            running.clear()
    cov_f = {}
    distinct = set()
    samples = []
    for f in facets:
        rs = [r for r in results if r["facet"] == f.name]
        ev = Counter()
        nt = set()
        for r in rs:
            ev.update(r["events"])
            nt.update(r["nontrivial"])
        distinct.update(f.name + x for x in nt)
        n_ev = sum(r["evaluations"] for r in rs)
        ss = [x for r in rs for x in r["samples"]]
        if ss:
            samples.append({"facet": f.name, "case": ss[0]})
        cov_f[f.name] = dict(evaluations=n_ev, distinct_nontrivial=len(nt), rejected=sum(r["rejected"] for r in rs),
                             inconclusive=sum(r["inconclusive"] for r in rs), rule=f.rule, classes=dict(ev.most_common(40)),
                             wall_s=round(sum(r["wall"] for r in rs), 2))
    viol = [r for r in results if r["violation"]]
    harness = [r for r in results if r["harness"]]
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(c["evaluations"] for c in cov_f.values()), distinct_nontrivial=len(distinct),
                            rule="cases generated by a seeded generator with boundary bias (60%) and by Hypothesis (40%); per facet: " + " | ".join(f"{f.name}: {f.rule}" for f in facets),
                            samples=samples[:12], facets=cov_f),
              assumptions=["floating-point tolerances stated in DESIGN.md", "oracles in /verif/pvt are independent of the library's code"],
              wall_s=round(wall, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if viol:
        r = viol[0]
        path = _write_replay(prop, r["facet"], r["violation"], seed, tier)
        print(f"{prop}/{r['facet']}: {r['violation']['message']}")
        print("case: " + json.dumps(r["violation"]["notes"])[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if harness or lost:
        for r in harness[:2]:
            print(f"HARNESS-ERROR {prop}/{r['facet']}:\n{r['harness']}", file=sys.stderr)
        for k in lost[:3]:
            print(f"HARNESS-ERROR worker died {k}", file=sys.stderr)
        return 2
    for name, c in cov_f.items():
        f = next(f for f in facets if f.name == name)
        if c["evaluations"] and c["distinct_nontrivial"] < f.min_nontrivial * c["evaluations"]:
            print(f"note: {prop}/{name} only {c['distinct_nontrivial']}/{c['evaluations']} non-trivial cases", file=sys.stderr)
        if c["inconclusive"]:
            print(f"note: {prop}/{name} {c['inconclusive']} inconclusive oracle decisions", file=sys.stderr)
    for k in _known()["findings"]:
        if k["property"] == prop:
            from . import known
            what = known.probe(k["id"])
            if what:
                print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    print(f"OK {prop} tier={tier} seed={seed} evaluations={ev['coverage']['evaluations']} "
          f"distinct_nontrivial={len(distinct)} wall={wall:.1f}s")
    return 0


def replay(path):
    from .core import Case
    r = json.load(open(path))
    sys.stdout.flush()
    pid = os.fork()
    if pid:
        st = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(st) and -os.WTERMSIG(st) in NATIVE:
            print(f"the process died with {NATIVE[-os.WTERMSIG(st)]}")
            print(f"VIOLATION property={r['property']} replay={path}")
            return 1
        return os.WEXITSTATUS(st) if os.WIFEXITED(st) else 2
    rc = 3
    try:
        rc = _replay(r, path)
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(rc)


def _replay(r, path):
    from .core import Case
    f = next(f for f in _load(r["property"]) if f.name == r["facet"])
    case = Case(replay=[tuple(x) for x in r["draws"]])
    kind, msg, exc = _run_case(f, case)
    print(kind, msg)
    if kind == "violation":
        traceback.print_exception(exc)
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if kind in ("ok", "reject") else 2


def main(argv):
    _paths()
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    try:
        if a.selftest:
            from . import registry
            n = 0
            for p in sorted(registry.MODULES):
                n += len(_load(p))
            import hypothesis
            print(f"hypothesis {hypothesis.__version__}; {len(registry.MODULES)} properties, {n} facets")
            return 0
        if a.replay:
            return replay(a.replay)
        rc = 0
        for p in a.props:
            rc = max(rc, check(p, a.tier, a.seed, a.facet, a.scale))
        return rc
    except Exception:
        traceback.print_exc()
        return 3
