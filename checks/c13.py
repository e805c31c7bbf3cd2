import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

RATIOS = [(11, 10), (3, 2), (2, 1), (5, 1), (10, 1), (40, 1), (1000000, 1)]
ODD = [(113, 100), (157, 100), (211, 100), (523, 100), (1019, 100), (3989, 100), (1000000, 1)]      # whole-number places are never exactly at these

def check(c):
    c.model("Tree", c.pick("Tree", "TreeBig"))
    rng = c.rng
    def line(n, kind, eng, show=12):
        p, q = RATIOS[-1] if kind == 3 else rng.choice(RATIOS[:3]) if n > 1000 else rng.choice(ODD if kind in (1, 7, 8) else RATIOS)
        return "tree %d %d %d %d %d %d : %s" % (n, rng.randrange(10**6), kind, p, q, show, eng)
    sizes = c.pick(list(range(1, 18)) + [31, 33, 40, 63, 64, 65, 96, 127, 129, 200], list(range(1, 70)) + [95, 96, 100, 127, 128, 129, 150, 191, 192, 193, 255, 256, 257, 300, 500])
    runs = []
    for lay in ("tree", "heap", "heap_stackless"):
        for tt in ("cycle", "nested_tree"):
            eng = "engine=simple_bh tree_layout=%s traverse_type=%s" % (lay, tt)
            sc = []
            for n in sizes:
                for kind in range(9):
                    if n > {1: 41, 7: 80, 8: 13}.get(kind, n): continue
                    reps = c.pick(2, 8) if kind in (1, 8) and n < 13 else 1
                    sc += [line(n, kind, eng) for _ in range(reps)]
            # many bodies: deep trees, long index arithmetic, tasks of the parallel build
            sc += [line(n, rng.choice((0, 2)), eng, show=3) for n in c.pick([rng.randrange(66000, 80000)], [1025, 4096, 20000, rng.randrange(66000, 80000), 140000])]
            runs.append((eng, "asan", (), rng.choice([1, 4, 7]), sc))
    ocl = c.pick([(8, 4, "0:0"), (12, 4, "0:0"), (24, 4, "0:0")], [(4, 4, "0:0"), (8, 4, "0:0"), (12, 4, "0:0"), (24, 4, "0:0"), (40, 8, "0:0"), (64, 64, "0:0"), (32, 4, "0:0,0"), (24, 4, "0:0;0:0")])
    for n, block, dev in ocl:
        sc = []
        for lay in ("heap", "heap_stackless"):
            for tt in ("cycle", "nested_tree"):
                eng = "engine=opencl_bh device=%s block_size=%d tree_layout=%s traverse_type=%s" % (dev, block, lay, tt)
                sc += [line(n, kind, eng) for kind in c.pick((rng.choice((0, 2, 5, 6)), rng.choice((1, 7)), rng.choice((3, 4)), 8 if n < 13 else 0), [k for k in range(9) if k < 8 or n < 13])]
        runs.append(("opencl_bh %d bodies" % n, "fast", (OCL,), 4, sc))
    c.sample(dict(engine=runs[0][0], commands=runs[0][4][:10]))
    exe = {v: vlib.build_harness("tree", v) for v in ("asan", "fast")}
    def record(r):
        eng, var, wrap, th, sc = r
        js = c.harness(exe[var], stdin="\n".join(sc) + "\n", what="tree code on " + eng, timeout=800, wrap=wrap, env=vlib.henv(th)).json()
        if len(js) != len(sc): raise vlib.CheckError("harness output incomplete")
        for j, s in zip(js, sc): j["cmd"] = s
        return js
    def all_events():
        with ThreadPoolExecutor(8) as ex: parts = list(ex.map(record, runs))
        return [x for p in parts for x in p]
    ev = all_events()
    c.extra["cells_seen"] = sum(len(b["used"]) + len(b["opened"]) for j in ev if "bodies" in j for b in j["bodies"])
    c.validate("TreeTrace", ev, what="tree code", ntraces=len(ev), redo=all_events)
    c.assumptions += ["opening ratios above one; positive masses; bodies with one common coordinate but different places occur only with ratios so large that the grouping does not matter",
                      "OpenCL: body counts that fill whole blocks, on the Oclgrind device"]

vlib.main("C13", check)
