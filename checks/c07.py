import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, solverlib

FOUND = {"rkck": 4, "rkdp": 4, "rkgl": 2, "rklc": 2}
DOC = dict(euler=1, midpoint=2, trapeze=2, rk4=4, rkck=5, rkdp=5, rkdverk=5, rkf=7, rkfeagin10=10, rkfeagin12=12, rkfeagin14=14, rkgl=6, rklc=4)
DOC["midpoint-st"] = 2

def check(c):
    for i in (1, 2):
        c.model("MCTableaux", "MCTableaux%d" % i)
    trees = c.behaviours("TreesGen", "TreesGen14")
    upto = solverlib.tree_file(trees, c.tmp("trees.txt"))
    exe = vlib.build_harness("solver")
    known = dict(vlib.known_findings("C07"))
    cases, text = [], []
    # ---- symbolic steps
    dts = c.pick(["1", "0.25", "0.3"], ["1", "0.25", "0.3", "0.007", "3", "1e-5"])
    def sym(name, refine, extra=""):
        for dt in dts:
            memory = name in ("midpoint-st", "rkgl", "rklc")
            text.append("new %s solver=%s refine_steps_count=%d %s" % (c.rng.choice(["0", "0.125", "-3", "7.1"]), name, refine, extra))
            text.append("err 0")
            text.append("step " + dt)
            for k in range(2):
                if memory:
                    text.append("reset")
                text.append("rebase %d" % (500001 + k))
                text.append("step " + c.rng.choice(dts))
            text.append("end")
            cases.append(("sym", name, refine))
    for name in ("euler", "midpoint", "midpoint-st", "rk4"):
        sym(name, 1)
    for r in range(c.pick(4, 8)):
        sym("trapeze", r)
        sym("rkgl", r)
        sym("rklc", r)
    for name in ("rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14"):
        for extra in ("", "correction=true", "max_recursion=0", "error_threshold=0 substep_subdivisions=3"):
            sym(name, 1, extra)
    for lv in range(1, c.pick(6, 9)):
        for dt in dts:
            text.append("new 0.5 solver=bs max_level=%d error_threshold=0" % lv)
            text += ["err 1", "step " + dt, "rebase 500001", "step " + dt, "end"]
            cases.append(("bs", lv))
    # ---- flows of the trees
    text.append("trees " + c.tmp("trees.txt"))
    def flow(name, refine, extra=""):
        for dt in c.pick(["1", "0.37"], ["1", "0.37", "2.5", "0.01"]):
            n = upto[min(14, DOC[name] + 1)]
            text.append("flow %d %s %d error_threshold=1e30 solver=%s refine_steps_count=%d %s" % (n, dt, 1 if name == "midpoint-st" else 2, name, refine, extra))
            cases.append(("flow", name, 0))
    for name in DOC:
        flow(name, 20 if name in ("rkgl", "rklc") else 2)
        if name.startswith("rk") and name not in ("rk4",):
            flow(name, 20, "correction=true")
    for lv in range(1, 8):
        for dt in ("1", "0.37"):
            text.append("flow %d %s 2 error_threshold=0 solver=bs max_level=%d" % (upto[2 * lv], dt, lv))
            cases.append(("flow", "bs", lv))
    script = "\n".join(text) + "\n"
    found = {}
    def record():
        js = c.harness(exe, stdin=script, what="one solver step", timeout=200).json()
        it, evs = iter(js), []
        cur = None
        ci = iter(cases)
        steps = []
        num = lambda row: None if row is None else [solverlib.number(x) for x in row]
        for j in js:
            if j["e"] == "step":
                steps.append(j)
            elif j["e"] == "end":
                k = next(ci)
                for i, s in enumerate(steps):
                    base = 0 if i == 0 else 500000 + i
                    common = dict(timeok=s["timeok"], foreign=j["foreign"], leaked=j["leaked"], steps=s["steps"])
                    if k[0] == "bs":
                        evs.append(dict(common, e="bs", levels=k[1]))
                        continue
                    t = solverlib.tableau(s, base)
                    common["nodes"] = t["nodes"]
                    bad = [[[0, 0, 0, 1]]]
                    name = k[1]
                    if name.startswith("rkfeagin"):
                        evs.append(dict(common, e="feagin", name=name, stages=len(t["a"]) if None not in t["a"] and t["b"] else 0,
                                        err=[num(r) or bad[0] for r in t["err"]]))
                    else:
                        evs.append(dict(common, e="method", name=name, refine=k[2], known=name in known,
                                        a=[num(r) or bad[0] for r in t["a"]], b=num(t["b"]) or bad[0], err=[num(r) or bad[0] for r in t["err"]]))
                steps = []
            elif j["e"] == "flow":
                k = next(ci)
                tol = lambda n: 1e-5 if k[1] == "rkfeagin14" and n > 8 else 1e-10
                good = [n + 1 for n, w in enumerate(j["worst"]) if w <= tol(n + 1)]
                evs.append(dict(e="order", name=k[1], levels=k[2], known=k[1] in known, good=good, worst=["%.3g" % w for w in j["worst"]]))
                if k[1] in FOUND and not set(range(1, DOC[k[1]] + 1)) <= set(good):
                    found[k[1]] = max(n for n in range(0, 20) if set(range(1, n + 1)) <= set(good))
            elif j["e"] == "refused":
                raise vlib.Violation("a documented solver is not created", dict(case=str(cur)))
        if next(ci, None) is not None:
            raise vlib.CheckError("harness output incomplete")
        return evs
    evs = record()
    c.sample([e for e in evs if e["e"] == "method" and e["name"] == "rk4"][0])
    c.extra.update(trees=len(trees), symbolic_steps=sum(e["e"] in ("method", "feagin", "bs") for e in evs))
    c.validate("SolverTrace", evs, what="solver step", ntraces=len(cases), redo=record)
    for name, p in sorted(found.items()):
        vlib.log("KNOWN-FINDING: property=C07 %s: %s (order conditions hold up to order %d only)" % (name, known[name], p))
    c.assumptions += ["solvers are observed through the engine interface; the engines' own arithmetic is the subject of C11",
                      "published tables are checked against the order conditions modulo two primes; Feagin's tables through the trees' flow only, with a tolerance for rounded coefficients"]

vlib.main("C07", check)
