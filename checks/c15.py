import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

NB = 4

def check(c):
    c.model("MCDevices", "MCDevices2")
    c.model("MCDevices", c.pick("MCDevices4", "MCDevices4Big"))
    c.model("MCVec")
    pool = c.behaviours("MCVec", "VecGen")
    sels = c.behaviours("MCDevices", "DevicesGen")
    by = {}
    for o in pool:
        if o["op"] not in ("read", "clamp") and not (o["op"] == "force" and {o["d"], o["s"]} & {0, 99}): by.setdefault(o["op"], []).append(o)
    rng = c.rng
    good = lambda o: 0 < o["d"] < 90 and o["s"] < 90 and o["t"] < 90
    def seq(n):
        p = []
        for op in sorted(by):
            p += rng.sample(by[op], min(len(by[op]), 12)) + rng.choices([o for o in by[op] if good(o)], k=30)
        p += [call("force", d, s) for d in range(1, NB + 1) for s in range(1, NB + 1) if d != s] * 8
        return bounded(rng, p, n, NB, limit=20000)
    combos = []
    for dev, nd in [("0:0,0", 2), ("0:0;0:0", 2), ("0:0,0,0,0", 4), ("0:0,0;0:0,0", 4), ("0:0;0:0;0:0;0:0", 4), ("0:0", 1), ("0:0,0,0;0:0", 4), ("0:0,0,0,0,0,0,0,0", 8)]:
        for block, k in [(4, 1), (4, 3), (8, 2), (16, 1)]:
            combos.append((dev, nd, block, k))
    use = c.pick([combos[i] for i in range(0, len(combos), 4)] + [combos[1], combos[9], combos[13]], combos)
    runs = []
    nested = ["opencl_bh tree_layout=heap traverse_type=nested_tree", "opencl_bh tree_layout=heap_stackless traverse_type=nested_tree"]
    turn = iter([["opencl", nested[i % 2]] for i in range(len(use))])
    for dev, nd, block, k in use:
        for eng in c.pick(next(turn), ["opencl", "opencl_bh tree_layout=heap", "opencl_bh tree_layout=heap_stackless traverse_type=nested_tree", "opencl_bh tree_layout=heap traverse_type=nested_tree", "opencl_bh tree_layout=heap_stackless"]):
            name = "engine=%s device=%s block_size=%d" % (eng, dev, block) + (" distance_to_node_radius_ratio=1e16" if "bh" in eng else "")
            sc, ops = [], []
            for rep in range(c.pick(4, 6)):
                o = generic_forces(seq(c.pick(24, 40)), NB, 5)
                ops.append(o)
                sc.append(script(nd * block * k, name, NB, o, ["bits 2 3", "norms 40"] if rep == 0 else []))
            runs.append((name, sc, ops))
    c.sample(dict(engine=runs[0][0], calls=[text(o) for o in runs[0][2][0]]))
    # selections of devices
    fine = [s for s in sels if s["usable"]]
    bad = [s for s in sels if not s["usable"]]
    near = [s for s in bad if all(g["plat"] == "0" and all(d == "0" for d in g["devs"]) for g in s["sel"])]
    bad1 = [s for s in bad if sum(g["plat"] != "0" for g in s["sel"]) + sum(d != "0" for g in s["sel"] for d in g["devs"]) == 1]
    picked = c.pick(fine + near + rng.sample(bad1, 14) + rng.sample(bad, 8), fine + near + bad1 + rng.sample(bad, 200))
    text_of = lambda s: ";".join(g["plat"] + ":" + ",".join(g["devs"]) for g in s["sel"])
    sel = [("select engine=%s device=%s" % (rng.choice(["opencl", "opencl_bh"]), text_of(s)), s["usable"]) for s in picked]
    sel += [("select engine=opencl device=%s" % t, False) for t in ("", "0", "0:0:0", ":", ";", "0:", ":0", "0:0;", ";0:0", "0:0,", "0:,0", "0:-1", "-1:0", "0:0,1", "0.0", "0:4294967296", "99:0")]
    exe = vlib.build_harness("engine", "fast")
    def record(r):
        name, sc, ops = r
        js = c.harness(exe, stdin="\n".join("\n".join(s) for s in sc) + "\n", what="several devices: " + name, timeout=600, wrap=(OCL,), env=vlib.henv(2)).json()
        e = events(js, ops)
        for x in e: x["engine"] = name
        return e
    def select(part):
        js = c.harness(exe, stdin="\n".join(s for s, _ in part) + "\n", what="selection of devices", timeout=600, wrap=(OCL,), env=vlib.henv(2)).json()
        if len(js) != len(part): raise vlib.CheckError("harness output incomplete")
        for j, (s, u) in zip(js, part): j["usable"], j["cmd"] = u, s
        return js
    def all_events():
        with ThreadPoolExecutor(8) as ex:
            a = [ex.submit(record, r) for r in runs]
            b = [ex.submit(select, sel[i::6]) for i in range(6)]
            return [x for f in a + b for x in f.result()]
    evs = all_events()
    c.extra["selections"] = len(sel)
    c.validate("VecTrace", evs, what="several devices", ntraces=sum(len(r[1]) for r in runs) + len(sel), redo=all_events)
    c.assumptions += ["devices are instances of the Oclgrind device, several of them in one or in separate contexts", "body counts that fill whole blocks on every device"]

vlib.main("C15", check)
