import os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

SOLVERS = ["euler", "midpoint", "trapeze", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "bs"]
ENGINES = ["simple", "openmp", "simple", "block", "simple_bh", "simple"]

def table(path, rng, n, fast):
    with open(path, "w") as f:
        for i in range(n):
            p = [rng.uniform(-4, 4) if fast else rng.uniform(-20, 20) for _ in range(3)]
            v = [rng.uniform(-300, 300) if fast else rng.uniform(-2, 2) for _ in range(3)]
            f.write(" ".join("%.17g" % x for x in p + v + [rng.uniform(0.1, 5)]) + "\n")
        f.write("5.0 1 1 0 0 0 0.5\n")

def case(c, i, h, rng):
    d = c.tmp("case%d" % i)
    os.makedirs(d)
    dt = rng.choice([2.0 ** -7, 2.0 ** -10, 0.01, 0.001, 2.0 ** -7])
    dyadic = dt in (2.0 ** -7, 2.0 ** -10)
    solver = SOLVERS[i % len(SOLVERS)]
    engine = rng.choice(ENGINES)
    adaptive = solver in ("rkck", "rkdp", "rkdverk", "rkf") and rng.random() < 0.7
    args = ["--solver=" + solver, "--engine=" + engine, "--max_step=%.17g" % dt, "--min_step=1e-9", "--check_step=0",
            "--dump_step=%.17g" % (dt * h["dump"] / 20.0)]
    if solver == "trapeze":
        args.append("--refine_steps_count=%d" % rng.choice([1, 3]))
    if adaptive:
        args += ["--error_threshold=%g" % rng.choice([1e-6, 1e-9, 1e-3]), "--max_recursion=2", "--substep_subdivisions=%d" % rng.choice([2, 3])]
    else:
        args.append("--error_threshold=%g" % (1e-11 if solver == "bs" else 1e30))
    n = 64 if engine == "block" else rng.choice([3, 7, 17])
    if h["clamp"]:
        args.append("--clamp=true")
    if rng.random() < 0.5 or engine == "block":
        args.append("--stars_count=40"); n = 128
        args.append("--box_size=%d" % rng.choice([3, 40]))
    else:
        table(os.path.join(d, "init.txt"), rng, n, h["clamp"])
        args += ["--initial_state=" + os.path.join(d, "init.txt"), "--initial_type=G1"]
    fsz = (n if "--stars_count=40" in args else n + 1) * 48
    def part():
        return "--max_part_size=%d" % rng.choice([1 << 30, fsz, fsz - 1, 2 * fsz, 2 * fsz + 1, 100])
    def tm(u):
        # the end time never coincides with a step: whether t < max_time is then a matter of rounding
        return "--max_time=%.17g" % (dt * (u if dyadic else u + (5 if u % 20 == 0 else 0)) / 20.0)
    U = lambda u: u if dyadic or u % 20 else u + 5
    segs = list(h["segs"])
    if segs[-1]["kind"] == "kill":
        segs.append(dict(kind="stop", tmax=segs[-1]["tmax"]))
    if segs[0]["kind"] == "kill" and rng.random() < 0.3:
        segs.insert(0, dict(kind="stop", tmax=47 if h["dump"] <= 40 else 100))
    plan = []
    for k, s in enumerate(segs):
        a = args + [part(), tm(s["tmax"])]
        a.append("--output=" + os.path.join(d, "a") if k == 0 else "--resume=" + os.path.join(d, "a"))
        plan.append(dict(args=a, kill=None if s["kind"] == "stop" else rng.randrange(1, 45) if k else rng.randrange(14, 60),
                         torn=rng.randrange(2), tmax=U(s["tmax"])))
    last = max(p["tmax"] for p in plan)
    return dict(dir=d, dt=dt, dump=h["dump"], clamp=h["clamp"], plan=plan, last=last,
                ref=args + [part(), tm(last), "--output=" + os.path.join(d, "ref")], what=" ".join(args))

def run_case(c, k, prog, killer, dumper):
    """The uninterrupted run, then the interrupted one; returns the events of the trace."""
    for f in os.listdir(k["dir"]):
        if f != "init.txt":
            os.unlink(os.path.join(k["dir"], f))
    env = vlib.henv(threads=2, LD_LIBRARY_PATH=os.path.join(os.path.dirname(prog), "../../lib"))
    ids = {}
    def frames(name):
        r = vlib.run_harness(dumper, stdin=os.path.join(k["dir"], name) + "\n", env=env)
        if r.rc != 0 or not r.json():
            return None
        j = r.json()[0]
        if j["rc"] != 0 or j["bad"]:
            return None
        return [dict(step=f["step"], t=int(round(f["t"] / k["dt"] * 20)), id=ids.setdefault(f["h"], len(ids) + 1)) for f in j["frames"]]
    bad = [dict(step=-1, t=-1, id=-1)]
    def go(args, **kw):
        r = vlib.run_harness(prog, args, env=dict(env, **kw), timeout=60)
        if r.rc == 127:
            raise vlib.CheckError("cannot start " + prog)
        return r.rc if not r.timed_out else -1000
    rc = go(k["ref"])
    ev = [dict(e="ref", rc=rc, dump=k["dump"], clamp=k["clamp"], tmax=k["last"], frames=frames("ref") or bad, args=k["what"])]
    for p in k["plan"]:
        if p["kill"]:
            rc = go(p["args"], LD_PRELOAD=killer, VKILL_ROOT=k["dir"] + "/a", VKILL_AT=str(p["kill"]), VKILL_TORN=str(p["torn"]))
        else:
            rc = go(p["args"])
        fr = frames("a")
        if rc == -9 and (fr is None or len(fr) < 2):
            break      # killed before the first frame past the start
        ev.append(dict(e="seg", killed=rc == -9, rc=rc, tmax=p["tmax"], frames=fr or bad, args=" ".join(p["args"]), kill=p["kill"] or 0))
    return ev

def check(c):
    c.model("Resume")
    if not c.quick:
        c.model("Resume", "ResumeBig", timeout=3000)
    hs = c.behaviours("MCResume", "ResumeGen")
    c.rng.shuffle(hs)
    n = c.pick(96, 1200)
    root = vlib.build_lib("fast", progs=("test/main",))
    prog = os.path.join(root, "test/main/nbody-simulation")
    dumper = vlib.build_harness("dumpstream", "fast")
    killer = os.path.join(vlib.BUILD, "harness-fast", "killer.so")
    vlib.sh(["g++", "-shared", "-fPIC", "-O1", "-std=gnu++17", "-o", killer, os.path.join(vlib.VERIF, "harness", "killer.cpp")])
    cases = [case(c, i, hs[i % len(hs)], c.rng) for i in range(n)]
    def record():
        with ThreadPoolExecutor(4) as ex:
            return [e for evs in ex.map(lambda k: run_case(c, k, prog, killer, dumper), cases) for e in evs]
    events = record()
    kills = sum(1 for e in events if e.get("killed"))
    resumed = sum(1 for a, b in zip(events, events[1:]) if a["e"] == "seg" and b["e"] == "seg")
    c.extra.update(killed_runs=kills, resumed_runs=resumed, interrupted_histories=n)
    c.sample(cases[0]["plan"])
    c.validate("ResumeTrace", events, what="stopped and resumed simulation", ntraces=n, redo=record)
    c.assumptions += ["single precision of the schedule: end times and intervals are chosen so that no decision hinges on the last bit of the accumulated time",
                      "solvers that keep data between steps (Adams, Stetter midpoint, the implicit Runge-Kutta methods, compensated summation) are outside the property"]

vlib.main("C03", check)
