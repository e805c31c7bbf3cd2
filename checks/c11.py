import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *

NB = 4

def check(c):
    c.model("MCVec")
    pool = c.behaviours("MCVec", "VecGen")
    by = {}
    for o in pool: by.setdefault(o["op"], []).append(o)
    rng = c.rng
    # every operation equally often, whatever the number of its variants; long lists as the solvers use them
    def longlist(op):
        d = rng.randint(1, NB); m = [b for b in range(1, NB + 1) if b != d]
        k = rng.randint(3, 30); co = [rng.choice([0, 0, 1, -1, 2, 3]) for _ in range(rng.randint(1, k))]
        return call(op, d, NB + 1 if op == "corr" else rng.choice([0] + list(range(1, NB + 1))) if op == "fmaddn" else 0, 0, [rng.choice(m) for _ in range(k)], co)
    def seq(n):
        p = []
        for op in sorted(by): p += rng.sample(by[op], min(len(by[op]), 40))
        p += [longlist(op) for op in ("fmaddn", "fmaddni", "corr") for _ in range(12)]
        return bounded(rng, p, n, NB)
    scales = lambda: rng.choice([0, 0, 0, 60, -60, 200, -200, 900])        # very small and very large factors
    host = [("engine=simple", 1), ("engine=openmp", 4), ("engine=block", 3), ("engine=ah full_recompute_rate=10 max_dist=5 min_force=0.001", 8), ("engine=simple_bh distance_to_node_radius_ratio=1e16", 4),
            ("engine=openmp", 8), ("engine=openmp", 1)]
    sizes = c.pick([1, 2, 3, 5, 7, 64, 65, 1000], [1, 2, 3, 4, 5, 6, 7, 8, 9, 63, 64, 65, 100, 127, 128, 1000, 4097])
    runs = []            # (what, exe variant, wrap, threads, scripts, ops)
    for eng, th in host:
        sc, ops = [], []
        for n in sizes:
            for rep in range(c.pick(2, 12)):
                o = seq(c.pick(25, 60) if n < 1000 else 12)
                ops.append(o)
                sc.append(script(n, eng, NB, o, ["bits 2 3", "kahan 400 5", "norms %d" % c.pick(400, 3000)] if rep == 0 else [], scales=scales))
        runs.append((eng, "asan", (), th, sc, ops))
    for eng, n in c.pick([("engine=opencl", 64), ("engine=opencl", 128), ("engine=opencl block_size=16", 48), ("engine=opencl_bh distance_to_node_radius_ratio=1e16", 64)],
                         [("engine=opencl", 64), ("engine=opencl", 128), ("engine=opencl", 192), ("engine=opencl block_size=16", 16), ("engine=opencl block_size=16", 48), ("engine=opencl block_size=32", 96),
                          ("engine=opencl_bh distance_to_node_radius_ratio=1e16", 64), ("engine=opencl_bh tree_layout=heap_stackless", 128)]):
        sc, ops = [], []
        for rep in range(c.pick(2, 8)):
            o = seq(c.pick(25, 60))
            ops.append(o)
            sc.append(script(n, eng, NB, o, ["bits 2 3", "kahan 300 4", "norms %d" % c.pick(60, 400)] if rep == 0 else [], scales=scales))
        runs.append((eng, "fast", (OCL,), 4, sc, ops))
    c.sample(dict(engine=runs[0][0], calls=[text(o) for o in runs[0][5][0]]))
    exe = {v: vlib.build_harness("engine", v) for v in ("asan", "fast")}
    evs, n = [], 0
    from concurrent.futures import ThreadPoolExecutor
    def record(r):
        eng, var, wrap, th, sc, ops = r
        js = c.harness(exe[var], stdin="\n".join("\n".join(s) for s in sc) + "\n", what="vector operations on " + eng, timeout=400, wrap=wrap, env=vlib.henv(th)).json()
        e = events(js, ops)
        for x in e: x["engine"] = eng
        return e
    def all_events():
        with ThreadPoolExecutor(6) as ex: parts = list(ex.map(record, runs))
        return [x for p in parts for x in p]
    evs = all_events()
    want = sum(len(o) for r in runs for o in r[5])
    if sum(1 for x in evs if x["e"] == "op") < want and not any(x["e"] == "threw" for x in evs) and all(x.get("ok", True) for x in evs):
        raise vlib.CheckError("harness output incomplete")
    c.validate("VecTrace", evs, what="vector operations", ntraces=sum(len(r[4]) for r in runs), redo=all_events)
    c.assumptions += ["buffer contents are identified as exact integer combinations of known patterns, so every element takes part",
                      "the OpenCL engine runs on the Oclgrind device; CUDA engines cannot be built here"]

vlib.main("C11", check)
