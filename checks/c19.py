import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

SOLVERS = ["euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "trapeze", "bs",
           "adams rank=1", "adams rank=3 starter_solver=rk4", "adams rank=5 correction=true starter_solver=rkdp", "rkdp correction=true", "trapeze refine_steps_count=3"]
HOST = ["simple", "openmp", "block", "ah", "simple_bh", "simple_bh tree_layout=heap traverse_type=nested_tree"]

def check(c):
    c.model("MCWrap", c.pick("MCWrap", "MCWrapBig"))
    gen = c.behaviours("MCWrap", "WrapGen")
    rng = c.rng
    def clamp(n, eng):
        g = rng.choice(gen)
        b, f = g["b"], rng.choice([1, 1, 1, 7, 10**6, 12345])
        kinds = [x for x in gen if x["b"] == b]
        dense = rng.random() < .5                        # all kinds of places, or one body out
        xs = [rng.choice(kinds)["x"] * f + rng.choice([0, 0, 0, 1, -1]) if dense or rng.random() < .05 else rng.randrange(-b * f, b * f + 1) for i in range(3 * n)]
        return "clamp %s %d %d %d %s : engine=%s" % (rng.choice("yb"), n, b * f, rng.choice([0, 0, -3, -20, 10, 300, -300]), " ".join(map(str, xs)), eng)
    def run(n, eng, sol, cl, steps):
        box, per = rng.choice([1, 2, 3, 10]), 16
        b = box * per
        x = [rng.randrange(-3 * b, 3 * b) | 1 for _ in range(3 * n)]
        v = [2 * rng.choice([0, 1, -1, rng.randrange(-b + 1, b)]) for _ in range(3 * n)]
        return "run %d %d %d %d %d %s %s : engine=%s solver=%s" % (n, box, per, steps, cl, " ".join(map(str, x)), " ".join(map(str, v)), eng, sol)
    parts = [("asan", (), 4, []), ("asan", (), 1, [])]
    for eng in HOST:
        for n in [1, 2, 3, 4, 7, 8, 64, 65, 100] * c.pick(4, 30): parts[rng.randrange(2)][3].append(clamp(n, eng))
    for sol in SOLVERS:
        for k in range(c.pick(4, 40)):
            parts[rng.randrange(2)][3].append(run(rng.choice([1, 2, 3, 5]), HOST[k % len(HOST)], sol, rng.random() < .85, rng.choice([1, 2, 3, 9, 20])))
    for dev, nd in [("0:0", 1), ("0:0,0", 2), ("0:0;0:0", 2), ("0:0,0,0,0", 4)] + c.pick([], [("0:0,0;0:0,0", 4), ("0:0,0,0,0,0,0,0,0", 8)]):
        o = []
        for eng in ["opencl", "opencl_bh"]:
            for block, k in ([(4, 1), (8, 1), (4, 3)] if nd < 4 or not c.quick else [(4, 1)]):
                for r in range(c.pick(2, 8)): o.append(clamp(nd * block * k, "%s device=%s block_size=%d" % (eng, dev, block)))
            for sol in rng.sample(SOLVERS, c.pick(2, 8)) + ["midpoint-st", "euler"] if nd < 4 or not c.quick else ["euler"]:
                o.append(run(4 * nd, "%s device=%s block_size=4" % (eng, dev), sol, True, c.pick(4, 9)))
        parts.append(("fast", (OCL,), 2, o))
    c.sample(dict(commands=[parts[0][3][0][:300], parts[0][3][-1]]))
    exe = {v: vlib.build_harness("wrap", v) for v in ("asan", "fast")}
    def one(p):
        var, wrap, th, cmds = p
        js = c.harness(exe[var], stdin="\n".join(cmds) + "\n", what="wrapping", wrap=wrap, env=vlib.henv(th), timeout=800).json()
        if len(js) != len(cmds): raise vlib.CheckError("harness output incomplete")
        for j, s in zip(js, cmds): j["with"] = s.split(" : ")[1]
        return js
    def allev():
        with ThreadPoolExecutor(6) as ex: return [x for r in ex.map(one, parts) for x in r]
    ev = allev()
    c.extra["wraps"], c.extra["runs"] = sum(j["e"] == "clamp" for j in ev), sum(j["e"] == "run" for j in ev)
    c.validate("WrapTrace", ev, what="wrapping", ntraces=len(ev), redo=allev)
    c.assumptions += ["runs of bodies whose masses are too small to attract each other", "OpenCL on the Oclgrind device, counts that fill whole blocks"]

vlib.main("C19", check)
