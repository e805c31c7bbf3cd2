import os, sys, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from concurrent.futures import ThreadPoolExecutor

def check(c):
    c.model("MCSettings", c.pick("MCSettings", "MCSettingsBig"))
    gen = c.behaviours("MCSettings", "SettingsGen")
    rng = c.rng
    def text(cfg, pre=""):
        s = ""
        for k, v in sorted(list(cfg["set"].items() if cfg["set"] else []) + list(cfg["steps"].items() if cfg["steps"] else [])):
            s += " %s%s=%s" % (pre, k, v["kind"] + text(v, "starter.") if isinstance(v, dict) else v)
        return s
    full = lambda cfg: cfg["kind"] + text(cfg)
    arg = lambda a: "--%s=%s" % (a["name"], a["value"]) if a["form"] == "set" else a["value"]
    noise = [dict(form="other", name="", value=v) for v in ("--solver", "solver=rk4", "-solver=rk4", "--engine", "engine=ah", "--rank=3=4", "--solver=rk4=", "x", "--", "-", "--clamp", "clamp=1", "--max_step==1")]
    odd = [("stars_count", "3"), ("box_size", "7"), ("verbose", "0"), ("output", "/nowhere"), ("Solver", "euler"), ("ENGINE", "ah"), ("max_time", "5"), ("solvers", "rk4"), ("nothing", "")]
    def dress(g, every):
        """the same settings among other arguments, which by the specification change nothing"""
        a = list(g["args"])
        rng.shuffle(a)
        kindname = g["what"]
        a = [dict(x) for x in a]
        if rng.random() < .5:                       # overridden ones come first
            for x in rng.sample(a, rng.randrange(len(a) + 1)):
                a.insert(rng.randrange(a.index(x) + 1), dict(x, value=rng.choice(["x", "rk4", "simple", "7", "true", ""])))
        for k in range(rng.choice([0, 0, 1, 3])): a.insert(rng.randrange(len(a) + 1), dict(rng.choice(noise)))
        for k in range(rng.choice([0, 0, 1, 2])):
            n, v = rng.choice(odd)
            a.insert(rng.randrange(len(a) + 1), dict(form="set", name=n, value=v))
        if rng.random() < .3:
            a.insert(rng.randrange(len(a) + 1), dict(form="set", name="engine" if kindname == "solver" else "solver", value=rng.choice(["rk4", "simple", "adams", "none"])))
        return dict(what=kindname, args=a, cfg=g["cfg"])
    ocl = lambda g: g["what"] == "engine" and any(x["name"] == "engine" and x["value"].startswith("opencl") for x in g["args"])
    few = lambda g: len(g["args"]) <= 2
    nonocl = [g for g in gen if not ocl(g)]
    cases = [g for g in nonocl if few(g)] + rng.sample([g for g in nonocl if not few(g)], c.pick(700, 6000))
    eng = [g for g in nonocl if g["what"] == "engine" and g["cfg"]["kind"] in ("ah", "simple_bh") and not few(g)]
    cases += rng.sample(eng, min(len(eng), c.pick(150, 1000)))
    ad = [g for g in nonocl if g["cfg"]["kind"] == "adams"]
    cases += rng.sample(ad, min(len(ad), c.pick(150, 1000)))
    oc = [g for g in gen if ocl(g)]
    ocases = rng.sample([g for g in oc if few(g) and g["cfg"]["kind"] != "refused"], c.pick(14, 30)) + rng.sample([g for g in oc if g["cfg"]["kind"] == "refused"], c.pick(16, 60)) \
        + rng.sample([g for g in oc if not few(g) and g["cfg"]["kind"] != "refused"], c.pick(14, 120))
    cases = [dress(g, True) for g in cases]
    ocases = [dress(g, True) for g in ocases]
    parses = []
    for i in range(c.pick(600, 6000)):
        a = []
        for k in range(rng.randrange(9)):
            if rng.random() < .3: a.append(dict(rng.choice(noise)))
            else: a.append(dict(form="set", name=rng.choice(["a", "b", "ab", "A", "solver", "-a", "a b", "c.d", "x:y"]), value=rng.choice(["", "1", "-1", "a", "--a", "a b", "0:0,1;0:2", "1e-3", "/tmp/x", "True"])))
        parses.append(a)
    # the simulation program
    table, zeno, junk = c.tmp("table.txt"), c.tmp("zeno.txt"), c.tmp("junk.txt")
    open(table, "w").write("".join("%d 0 1 0 %d 0 1\n" % (i * 3, i) for i in range(5)))
    open(zeno, "w").write("2\n3\n0.0\n1\n2\n0 0 0\n1 1 1\n0 0 1\n0 1 0\n")
    open(junk, "w").write("1 2 3\n")
    holds = {table: {"G1": 5, "SI": 5, "ADK": 5}, zeno: {"Zeno": 2}, junk: {}, c.tmp("missing"): {}}
    progs = []
    S = lambda n, v: dict(form="set", name=n, value=v)
    for i in range(c.pick(24, 150)):
        a = [S("max_step", "0.015625"), S("max_time", rng.choice(["0.1", "0.125", "0.25"])), S("solver", rng.choice(["euler", "rk4", "adams", "rkdp"]) if rng.random() < .93 else "foo"),
             S("engine", rng.choice(["simple", "openmp", "block", "simple_bh"]) if rng.random() < .93 else "bar")]
        if rng.random() < .7: a.append(S("dump_step", rng.choice(["0.015625", "0.03125", "0.0625"])))
        if rng.random() < .6: a.append(S("stars_count", rng.choice(["1", "64", "65", "100", "130"])))
        if rng.random() < .6: a.append(S("box_size", rng.choice(["1", "3", "7", "64", "0.5"])))
        if rng.random() < .6: a.append(S("max_part_size", rng.choice(["1", "6144", "6145", "20000", "1000000"])))
        if rng.random() < .3: a.append(S("check_step", "0.0625"))
        if rng.random() < .3: a.append(S("check_list", rng.choice(["P", "PLVE", ""])))
        if rng.random() < .2: a.append(S("verbose", "1"))
        initial = {"none": 0}
        if rng.random() < .4:
            f = rng.choice(sorted(holds))
            a.append(S("initial_state", f))
            if f == table or rng.random() < .4: a.append(S("initial_type", rng.choice(["G1", "SI", "ADK", "Zeno", "other"]) if rng.random() < .3 else "G1"))
            initial = dict(holds[f], none=0)
        a.append(S("output", c.tmp("p%d/out" % i)))
        rng.shuffle(a)
        for x in rng.sample(a, rng.randrange(3)): a.insert(rng.randrange(a.index(x) + 1), dict(x, value=rng.choice(["x", "7", ""])))
        for k in range(rng.choice([0, 1, 2])): a.insert(rng.randrange(len(a) + 1), dict(rng.choice(noise)))
        progs.append((a, initial, c.tmp("p%d" % i)))
    root = vlib.build_lib("fast", progs=("test/main",))
    prog = os.path.join(root, "test/main/nbody-simulation")
    dumper = vlib.build_harness("dumpstream", "fast")
    def simulate(p):
        a, initial, d = p
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = vlib.henv(2, LD_LIBRARY_PATH=os.path.join(root, "lib"))
        r = vlib.run_harness(prog, [arg(x) for x in a], env=env, timeout=120)
        if r.rc == 127: raise vlib.CheckError("cannot start " + prog)
        e = dict(e="program", args=a, initial=initial, rc=-1000 if r.timed_out else r.rc, steps=[], n=0, box=0, parts=0, timed=True, output=os.path.join(d, "out"))
        if os.path.exists(os.path.join(d, "out.idx")):
            j = vlib.run_harness(dumper, stdin=os.path.join(d, "out") + "\n", env=env).json()
            if j and j[0]["rc"] == 0 and not j[0]["bad"]:
                e.update(n=j[0]["n"], box=j[0]["box"], steps=[f["step"] for f in j[0]["frames"]], timed=all(abs(f["t"] * 64 - f["step"]) < 1e-9 for f in j[0]["frames"]))
            e["parts"] = sum(x.startswith("out") and x.endswith(".dat") for x in os.listdir(d))
        return e
    c.sample(dict(args=[arg(a) for a in cases[0]["args"]], cfg=cases[0]["cfg"]))
    line = lambda g: "|".join(["make", g["what"], full(g["cfg"])] + [arg(a) for a in g["args"]])
    exe = {v: vlib.build_harness("settings", v) for v in ("asan", "fast")}
    def record(part):
        var, wrap, gs = part
        js = c.harness(exe[var], stdin="\n".join(line(g) for g in gs) + "\n", what="objects made from arguments", timeout=800, wrap=wrap, env=vlib.henv(1)).json()
        if len(js) != len(gs): raise vlib.CheckError("harness output incomplete")
        for j, g in zip(js, gs): j.update(what=g["what"], args=g["args"], cfg=g["cfg"])
        return js
    def parse(_):
        js = c.harness(exe["asan"], stdin="\n".join("|".join(["parse"] + [arg(a) for a in p]) for p in parses) + "\n", what="argument lists", env=vlib.henv(1)).json()
        if len(js) != len(parses): raise vlib.CheckError("harness output incomplete")
        for j, p in zip(js, parses): j["args"] = p
        return js
    def run():
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(record, ("asan", (), cases[i::6])) for i in range(6)] + [ex.submit(record, ("fast", (OCL,), ocases[i::4])) for i in range(4)] + [ex.submit(parse, 0)] + [ex.submit(lambda p: [simulate(p)], p) for p in progs]
            return [x for f in fs for x in f.result()]
    ev = run()
    made = [j for j in ev if j["e"] == "make" and j["made"]]
    byk = {}
    for j in made: byk.setdefault(j["cfg"]["kind"], {}).setdefault(j["does"], set()).add(json.dumps(j["cfg"], sort_keys=True))
    c.extra["behaviours_told_apart"] = {k: "%d of %d configurations" % (len(v), len(set().union(*v.values()))) for k, v in byk.items()}
    c.extra["refused"] = sum(j["e"] == "make" and not j["made"] for j in ev)
    c.validate("SettingsTrace", ev, what="objects made from arguments", ntraces=len(ev), redo=run)
    c.assumptions += ["objects are compared by what they do on one set of bodies, bit for bit", "OpenCL engines on the Oclgrind device; CUDA engines are not built here"]

vlib.main("C17", check)
