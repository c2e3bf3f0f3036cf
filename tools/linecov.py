"""Which library lines does each check reach?  linecov.py OUT.json [cases per facet]   (lines are those of PVT_REPO or /repo)"""
import json, os, random, sys
sys.dont_write_bytecode = True
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import multiprocessing as mp


def one(args):
    prop, name, n = args
    import logging
    from pvt import runner, core
    runner._paths()
    logging.disable(logging.CRITICAL)
    core.JOURNAL = None
    root = os.path.join(os.path.realpath(runner.REPO), "pyvallocation") + os.sep
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "linecov")

    def line(code, no):
        if code.co_filename.startswith(root):
            hit.add((code.co_filename[len(root):], no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    facets = runner._load(prop)
    mon.set_events(3, mon.events.LINE)
    for f in facets:
        if f.name != name:
            continue
        for i in range(n):
            runner._run_case(f, core.Case(rng=random.Random(f"{prop}{f.name}{i}")))
    mon.set_events(3, 0)
    return prop, sorted(hit)


if __name__ == "__main__":
    from pvt import registry
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    with mp.get_context("spawn").Pool(8, maxtasksperchild=1) as p:
        from pvt import runner
        runner._paths()
        tasks = [(c, f.name, n) for c in sorted(registry.MODULES) for f in runner._load(c)]
        out = {c: [] for c in registry.MODULES}
        for prop, hit in p.imap_unordered(one, tasks, chunksize=1):
            out[prop] = sorted(set(map(tuple, out[prop])) | set(map(tuple, hit)))
    json.dump(out, open(sys.argv[1], "w"))
