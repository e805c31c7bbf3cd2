import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

VEC = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (3, 4, 0), (-1, 2, 2), (2, -3, 6), (4, 4, -7), (1, 1, 0), (5, -1, 3), (0, 0, 0), (7, 7, 7), (-20, 9, 12)]

def check(c):
    c.model("Gravity", c.pick("Gravity", "GravityBig"))
    rng = c.rng
    runs = []
    sizes = c.pick([1, 2, 3, 5, 63, 64, 65, 100, 128, 130], list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 190, 192, 200, 257])
    for eng, th in [("engine=simple", 1), ("engine=openmp", 4), ("engine=openmp", 7), ("engine=block", 4), ("engine=block", 1), ("engine=ah full_recompute_rate=1", 4)]:
        sc = []
        for n in sizes:
            cols = sorted(rng.sample(range(n), min(n, c.pick(24, 128))) + ([n - 1] if n > 24 else []))
            cols = sorted(set(cols))
            sc.append("pairs %d %d %d %s : %s" % (n, rng.randrange(10**6), len(cols), " ".join(map(str, cols)), eng))
            sc.append("identity %d %d : %s" % (n, rng.randrange(10**6), eng))
            for kind in (0, 1, 2): sc.append("sum %d %d %d : %s" % (n, rng.randrange(10**6), kind, eng))
            if n > 1:
                for k in range(c.pick(12, 40)):
                    i, j = rng.sample(range(n), 2)
                    d = VEC[k % len(VEC)]
                    sc.append("kernel %d %d %d %d %d %d %d %d %d : %s" % ((n, i, j, rng.choice([-3, -1, 0, 1, 2, 3, 5, 6, 7, 9])) + d + (rng.randint(1, 9), rng.randint(1, 9), eng)))
        if not c.quick:
            sc.append("sum 1500 %d 0 : %s" % (rng.randrange(10**6), eng))
        runs.append((eng, "asan", (), th, sc))
    for eng, n in c.pick([("engine=opencl", 64), ("engine=opencl", 128), ("engine=opencl block_size=16", 48)],
                         [("engine=opencl", 64), ("engine=opencl", 128), ("engine=opencl", 192), ("engine=opencl block_size=16", 16), ("engine=opencl block_size=16", 48), ("engine=opencl block_size=32", 96)]):
        sc = []
        cols = sorted(set([0, n - 1] + rng.sample(range(n), 3)))
        sc.append("pairs %d %d %d %s : %s" % (n, rng.randrange(10**6), len(cols), " ".join(map(str, cols)), eng))
        sc.append("identity %d %d : %s" % (n, rng.randrange(10**6), eng))
        for kind in (0, 1, 2): sc.append("sum %d %d %d : %s" % (n, rng.randrange(10**6), kind, eng))
        for k in range(c.pick(4, 24)):
            i, j = rng.sample(range(n), 2)
            sc.append("kernel %d %d %d %d %d %d %d %d %d : %s" % ((n, i, j, rng.choice([-1, 0, 2, 3, 5, 7])) + rng.choice(VEC) + (rng.randint(1, 9), rng.randint(1, 9), eng)))
        runs.append((eng, "fast", (OCL,), 4, sc))
    c.sample(dict(engine=runs[0][0], commands=runs[0][4][:10]))
    exe = {v: vlib.build_harness("engine", v) for v in ("asan", "fast")}
    def record(r):
        eng, var, wrap, th, sc = r
        js = c.harness(exe[var], stdin="\n".join(sc) + "\n", what="attraction on " + eng, timeout=500, wrap=wrap, env=vlib.henv(th)).json()
        if len(js) != len(sc): raise vlib.CheckError("harness output incomplete")
        for j, s in zip(js, sc): j["cmd"] = s
        return js
    def all_events():
        with ThreadPoolExecutor(6) as ex: parts = list(ex.map(record, runs))
        return [x for p in parts for x in p]
    c.validate("GravityTrace", all_events(), what="attraction", ntraces=sum(len(r[4]) for r in runs), redo=all_events)
    c.assumptions += ["masses are positive; the OpenCL engine gets body counts that fill its blocks and runs on the Oclgrind device",
                      "the neighbour-scheme engine is exact when it recomputes everything in every step; tree engines are covered by C13"]

vlib.main("C12", check)
