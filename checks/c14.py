import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

def check(c):
    c.model("MCCache")
    gen = c.behaviours("MCCache", "CacheGen")
    rng = c.rng
    runs = []
    def histories(k):
        out = []
        for g in rng.sample(gen, k):
            f = rng.choice([1, 1, 1, 7, 1000, 10**7 + 19])         # the same history further on
            off = g["rate"] * rng.choice([0, 1, 10**6]) if g["rate"] else rng.choice([0, 10**9])
            out.append(dict(rate=g["rate"], steps=[s + off for s in g["steps"]]) if f == 1 else
                       dict(rate=g["rate"] * f, steps=[s * f for s in g["steps"]]) if g["rate"] else g)
        return out
    for lay in ("tree", "heap", "heap_stackless"):
        for tt in ("cycle", "nested_tree"):
            sc = []
            for h in histories(c.pick(60, 600)):
                n = rng.choice([1, 2, 3, 5, 8, 12, 16, 20, 31, 32, 33, 64, 70, 100] if not c.quick else [2, 3, 5, 8, 12, 16, 20, 33, 70])
                p, q = rng.choice([(3, 2), (2, 1), (5, 1)])
                sc.append((h["rate"], "hist %d %d %d %d %d %d %s : engine=simple_bh tree_layout=%s traverse_type=%s tree_build_rate=%d" % (
                    n, rng.randrange(10**6), rng.choice([0, 2, 5, 6]), p, q, len(h["steps"]), " ".join(map(str, h["steps"])), lay, tt, h["rate"])))
            runs.append(("simple_bh " + lay, "asan", (), rng.choice([1, 4]), sc))
    sc = []
    for h in histories(c.pick(120, 1500)):
        n = rng.choice([1, 2, 5, 8, 13, 20, 33])
        sc.append((h["rate"], "near %d %d %d %d %s : engine=ah full_recompute_rate=%d max_dist=%s min_force=%s" % (
            n, rng.randrange(10**6), rng.choice([0, 2, 6]), len(h["steps"]), " ".join(map(str, h["steps"])), h["rate"], rng.choice(["0.7", "1", "0.05", "10"]), rng.choice(["1000", "5", "0.3"]))))
    runs.append(("ah", "asan", (), 4, sc))
    for n, dev, block in c.pick([(12, "0:0", 4), (16, "0:0", 4)], [(4, "0:0", 4), (12, "0:0", 4), (16, "0:0", 4), (24, "0:0", 8), (16, "0:0,0", 4), (24, "0:0;0:0", 4)]):
        sc = []
        for h in histories(c.pick(4, 16)):
            sc.append((h["rate"], "hist %d %d %d 2 1 %d %s : engine=opencl_bh device=%s block_size=%d tree_layout=%s traverse_type=%s tree_build_rate=%d" % (
                n, rng.randrange(10**6), rng.choice([0, 2, 5]), len(h["steps"]), " ".join(map(str, h["steps"])), dev, block, rng.choice(["heap", "heap_stackless"]), rng.choice(["cycle", "nested_tree"]), h["rate"])))
        runs.append(("opencl_bh", "fast", (OCL,), 4, sc))
    c.sample(dict(engine=runs[0][0], commands=runs[0][4][:5]))
    exe = {v: vlib.build_harness("tree", v) for v in ("asan", "fast")}
    def record(r):
        what, var, wrap, th, sc = r
        js = c.harness(exe[var], stdin="\n".join(s for _, s in sc) + "\n", what="force histories on " + what, timeout=800, wrap=wrap, env=vlib.henv(th)).json()
        it = iter(sc)
        for j in js:
            if j["e"] == "history": j["rate"], j["cmd"] = next(it)
        return js
    def all_events():
        with ThreadPoolExecutor(8) as ex: parts = list(ex.map(record, runs))
        return [x for p in parts for x in p]
    ev = all_events()
    comp = [j for j in ev if j["e"] == "compute"]
    c.extra["kept_part_identified_uniquely"] = sum(len(j["by"]) == 1 for j in comp)
    c.extra["computations"] = len(comp)
    c.validate("CacheTrace", ev, what="force histories", ntraces=sum(len(r[4]) for r in runs), redo=all_events)
    c.assumptions += ["one set of bodies per engine; step numbers do not go back", "OpenCL on the Oclgrind device, counts that fill whole blocks"]

vlib.main("C14", check)
