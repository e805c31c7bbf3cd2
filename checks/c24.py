import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

SOLVERS = ["euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "trapeze", "bs",
           "bs max_level=3", "adams rank=1", "adams rank=3 starter_solver=rk4", "adams rank=5 correction=true starter_solver=rkdp", "adams rank=4 starter_solver=bs", "adams rank=2 starter_solver=trapeze",
           "adams rank=3 starter_solver=midpoint-st", "rkdp correction=true", "rkf error_threshold=1e-30 max_recursion=2 substep_subdivisions=2 correction=true", "rkgl error_threshold=1e-30 max_recursion=3 substep_subdivisions=2",
           "trapeze refine_steps_count=3"]
HOST = ["simple", "openmp", "block", "ah", "ah full_recompute_rate=2 max_dist=5", "simple_bh", "simple_bh tree_layout=heap traverse_type=nested_tree", "simple_bh tree_layout=heap_stackless", "simple_bh tree_build_rate=3 traverse_type=nested_tree"]

def check(c):
    c.model("MCLife", c.pick("MCLife", "MCLifeBig"))
    code = dict(attach="A", step="s", other="S", reset="r", end="")
    gen = sorted({"".join(code[x] for x in b["acts"]) for b in c.behaviours("MCLife", "LifeGen")})
    rng = c.rng
    idle = [h for h in gen if "s" not in h and "S" not in h]
    busy = [h for h in gen if h not in idle]
    h_ = lambda h: h or "-"
    solver, other = [], []
    for s in SOLVERS:
        hs = idle[:] if not c.quick else sorted({"", "r", "A", "Ar", "rA"}) + rng.sample(idle, 3)
        hs += rng.sample(busy, c.pick(20, 200))
        for h in hs: solver.append("solver %s %d engine=%s solver=%s" % (h_(h), rng.choice([1, 2, 3, 8]), rng.choice(HOST), s))
    word = lambda al, k: "".join(rng.choice(al) for _ in range(k))
    for e in HOST:
        other.append("bare engine=" + e)
        for k in range(c.pick(8, 80)): other.append("engine %s %d engine=%s" % (h_(word("ffttgGmxd", rng.choice([0, 1, 4, 9]))), rng.choice([1, 2, 5, 8, 64, 100]), e))
        for k in range(c.pick(2, 10)): other.append("run %s %d engine=%s solver=%s" % (rng.choice(["0", "0.01", "0.2"]), rng.choice([1, 4, 8]), e, rng.choice(SOLVERS)))
    for t in ("neville", "berrut"):
        for k in range(c.pick(8, 80)): other.append("table %s %s %d engine=simple" % (t, h_(word("uuuex0", rng.choice([0, 1, 3, 12]))), rng.choice([1, 2, 3, 8])))
    for k in range(c.pick(60, 600)):
        h = word("oowwwwcO", rng.choice([0, 1, 3, 8])) + word("lllrrrsSCL", rng.choice([0, 2, 6]))
        other.append("stream %s %d" % (h_(h), rng.choice([1, 3, 10])))
    for e in ("simple", "openmp"):
        for wanted in (0, 1, 2, 5):
            for at in range(-1, wanted + 1): other.append("several %d %d engine=%s" % (wanted, at, e))
    ocl = []
    for dev, nd in [("0:0", 1), ("0:0,0", 2), ("0:0;0:0", 2)]:
        for e in ("opencl", "opencl_bh"):
            eng = "engine=%s device=%s block_size=4" % (e, dev)
            o = ["engine %s %d %s" % (word("fttgGmxd", c.pick(5, 9)) + "f", 4 * nd, eng) for k in range(c.pick(1, 6))]
            o += ["solver %s %d %s solver=%s" % (h_(h), 4 * nd, eng, s) for h, s in zip([rng.choice(busy), rng.choice(idle)] * c.pick(1, 6), rng.sample(["euler", "rk4", "bs max_level=2", "adams rank=2", "trapeze", "rkck", "midpoint-st"], c.pick(2, 7)) * 6)]
            o.append("bare " + eng)
            ocl.append(("fast", (OCL,), o))
    rng.shuffle(solver)
    rng.shuffle(other)
    parts = [("asan", (), p[i::k]) for p, k in ((solver, 4), (other, 3)) for i in range(k)] + ocl
    c.sample(dict(commands=solver[:3] + other[:3] + ocl[0][2][:1]))
    exe = {v: vlib.build_harness("life", v) for v in ("asan", "fast")}
    def one(k):
        var, wrap, cmds = parts[k]
        d = c.tmp("life%d" % k)
        os.makedirs(d, exist_ok=True)
        js = c.harness(exe[var], [d], stdin="\n".join(cmds) + "\n", what="lives", wrap=wrap, env=vlib.henv(1), timeout=800).json()
        it = iter(cmds)
        for j in js:
            if j["e"] == "new": j["with"] = next(it)
        if next(it, None) is not None: raise vlib.CheckError("harness output incomplete")
        return js
    # the program: runs, runs that have nothing left to do, and runs that cannot begin
    root = vlib.build_lib("fast", progs=("test/main",))
    prog = os.path.join(root, "test/main/nbody-simulation")
    progs = [(rng.choice(HOST), s) for s in SOLVERS for k in range(c.pick(1, 4))]
    def program(k):
        eng, sol = progs[k]
        d = c.tmp("prog%d" % k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "file"), "w").close()
        args = ["--" + x for x in ("engine=%s solver=%s max_time=0.04 max_step=0.01 dump_step=0.02" % (eng, sol)).split()]
        out = "--output=" + os.path.join(d, "s")
        evs = []
        for life, more in (("run", ["--stars_count=8", out]), ("nothing to do", ["--resume=" + os.path.join(d, "s")]), ("no place", ["--stars_count=8", "--output=" + os.path.join(d, "file", "s")]), ("nothing to resume", ["--resume=" + os.path.join(d, "t")])):
            r = vlib.run_harness(prog, args + more, env=vlib.henv(2, LD_LIBRARY_PATH=os.path.join(root, "lib")), timeout=200)
            if r.rc == 127: raise vlib.CheckError("cannot start " + prog)
            evs += [dict(e="program", life=life, rc=-1000 if r.timed_out else r.rc, args=args + more)]
        shutil.rmtree(d, ignore_errors=True)
        return evs
    def allev():
        with ThreadPoolExecutor(7) as ex:
            a, b = ex.map(one, range(len(parts))), ex.map(program, range(len(progs)))
            return [x for r in a for x in r] + [x for r in b for x in r]
    ev = allev()
    c.extra["lives"] = sum(j["e"] == "new" for j in ev)
    c.extra["program runs"] = sum(j["e"] == "program" for j in ev)
    c.validate("LifeTrace", ev, what="lives", ntraces=c.extra["lives"], redo=allev)
    c.assumptions += ["the engine outlives its users and is not exchanged during a solver's life", "memory is counted by the sanitizer's allocator, files in /proc, device objects by counting their creation and release; growth is told from four repetitions",
                      "one thread; OpenCL on the Oclgrind device"]

vlib.main("C24", check)
