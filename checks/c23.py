import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from concurrent.futures import ThreadPoolExecutor

BH = ["engine=simple_bh tree_layout=%s traverse_type=%s tree_build_rate=%d" % (l, t, r)
      for l in ("tree", "heap", "heap_stackless") for t in ("cycle", "nested_tree") for r in (0, 2)]
PLAIN = ["engine=openmp", "engine=block", "engine=ah full_recompute_rate=2 max_dist=2 min_force=1e-3"]
SOLVERS = ["euler", "adams rank=4", "trapeze refine_steps_count=2", "bs max_level=4", "rk4 correction=true", "rkf error_threshold=1e-6 substep_subdivisions=4 max_recursion=2", "rkdp correction=true max_recursion=1", "midpoint"]
TSAN = "exitcode=0:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0:suppress_equal_stacks=0:suppress_equal_addresses=0:history_size=3"


def runtime(c):
    """The harness on the stand-in OpenMP runtime; None where the code uses an entry point the stand-in does not have."""
    os.makedirs(vlib.BUILD, exist_ok=True)
    obj = os.path.join(vlib.BUILD, "omprt.o")
    vlib.sh(["g++", "-std=gnu++17", "-O1", "-g", "-fPIC", "-w", "-c", os.path.join(vlib.VERIF, "harness", "omprt.cpp"), "-o", obj])
    exe = vlib.build_harness("threads", "tsan", extra=["-DRUNTIME", obj])
    names = lambda args, kind: set(re.findall(r" %s ((?:GOMP|omp)_\w+)" % kind, vlib.sh(["nm"] + args)[1].decode()))
    lib = os.path.join(vlib.BUILD, "lib-tsan", "lib")
    need = set()
    for f in os.listdir(lib):
        if f.startswith("libnbody") and not os.path.islink(os.path.join(lib, f)): need |= names(["-D", os.path.join(lib, f)], "U")
    miss = sorted(need - names([obj], "T"))
    if miss:
        vlib.log("the stand-in runtime lacks " + ", ".join(miss))
        return None, ()
    for wrap in ((), ("setarch", "x86_64", "-R")):
        r = vlib.run_harness(exe, stdin="", env=vlib.henv(1, TSAN_OPTIONS=TSAN), wrap=wrap)
        if r.rc == 0: return exe, wrap
    vlib.log("ThreadSanitizer does not start here: " + r.err[-200:])
    return None, ()


def check(c):
    rng = c.rng
    with ThreadPoolExecutor(8) as ex:
        models = c.pick(["ThreadsTreeThree", "ThreadsLevels", "ThreadsLoop", "ThreadsMax"], ["ThreadsTreeThree", "ThreadsLevels", "ThreadsLevelsBig", "ThreadsLoop", "ThreadsLoopBig", "ThreadsMax", "ThreadsTree", "ThreadsTreeBig"])
        jobs = [ex.submit(c.model, "Threads", m, workers=2, timeout=900 if c.quick else 6000) for m in models]
        gens = [(k, t) for k in ("tree", "loop") for t in (2, 3, 4)]
        gen = {g: ex.submit(c.behaviours, "Threads", "ThreadsGen_%s%d" % g, args=["-simulate", "num=%d" % c.pick(30, 300), "-depth", "600", "-seed", str(c.seed + 2300 + i)], workers=1) for i, g in enumerate(gens)}
        (exe, wrap) = runtime(c)
        fast = vlib.build_harness("threads", "fast")
        for j in jobs: j.result()
        behs = {g: f.result() for g, f in gen.items()}
    # computations on the stand-in runtime: once by one thread, then by behaviours of the specification
    cases = []
    for e in BH: cases += [("force", n, e) for n in (rng.randrange(2, 65), rng.randrange(66, 129), rng.randrange(130, 256))]
    # many bodies: whatever depends on the size of a cell (a small opening ratio keeps the walk short)
    for e in BH: cases += [("force", n, e + " distance_to_node_radius_ratio=1.5") for n in c.pick([rng.choice((rng.randrange(1100, 2000), rng.randrange(4200, 6000), rng.randrange(9000, 12000)))], [rng.randrange(257, 513), 700, 1500, 3000, 6000, 20000])]
    for e in PLAIN: cases += [(w, n, e) for w in ("force", "vec") for n in (rng.randrange(1, 9), rng.randrange(9, 80), rng.randrange(80, 200))]
    for e in PLAIN + BH:
        for s in (rng.sample(SOLVERS, 2) if c.quick else SOLVERS): cases.append(("run", rng.choice([rng.randrange(2, 20), rng.randrange(70, 140)]), e + " solver=" + s))
    rng.shuffle(cases)
    scripts, real = [], []
    for part in range(8):
        sc = []
        for i, (what, n, e) in enumerate(cases):
            if i % 8 != part: continue
            key = "%s:%d:%s" % (what, n, e.replace("engine=", "").replace(" ", ","))
            line = "case %s %s %d %d %d : %s" % (key, what, n, rng.randrange(10**6), rng.randrange(2 if what == "run" else 3), e)
            sc += ["sched 1 0 1 0", line]
            for r in range(c.pick(4, 24) if n < 1000 else c.pick(2, 4)):
                kind, t = rng.choice(gens[:3] if "simple_bh" in e and rng.random() < 0.7 else gens)
                b = rng.choice(behs[kind, t])
                team = t if rng.random() < 0.6 else rng.choice([2, 3, 4, 5, 8, 13])
                sc += ["sched %d %d %d %s" % (team, int(what == "force" and n < 300 and r == 0 and i % c.pick(5, 2) == 0), len(b), " ".join(map(str, b))), line]
        scripts.append(sc)
    # larger computations on the real runtime, by several numbers of threads
    for e in BH + PLAIN:
        for what, n in ([("force", rng.choice((rng.randrange(3000, 6000), rng.randrange(9000, 18000))))] if "bh" in e else [("force", rng.randrange(900, 2000)), ("vec", rng.randrange(20000, 40000))]) + [("run", rng.randrange(200, 400))]:
            s = " solver=" + rng.choice(SOLVERS) if what == "run" else ""
            key = "real:%s:%d:%s" % (what, n, (e + s).replace("engine=", "").replace(" ", ","))
            line = "case %s %s %d %d %d : %s" % (key, what, n, rng.randrange(10**6), rng.randrange(2 if what == "run" else 3), e + s + (" distance_to_node_radius_ratio=1.5" if n > 6000 and "bh" in e else ""))
            sc = []
            for t in c.pick([1, 2, 3, 8], [1, 2, 3, 4, 5, 7, 8, 16, 8, 3]): sc += ["sched %d 0 0" % t, line]
            real.append(sc)
    c.sample(dict(schedule=scripts[0][2], computation=scripts[0][3]))
    c.sample(dict(real_runtime=real[0][:6]))
    def record(job):
        x, w, sc, env = job
        r = c.harness(x, stdin="\n".join(sc) + "\n", what="parallel computations", timeout=850 if c.quick else 6000, wrap=w, env=env)
        js = r.json()
        if sum(j["e"] == "case" for j in js) != sum(s.startswith("case") for s in sc): raise vlib.CheckError("harness output incomplete")
        bad = [j for j in js if j.get("races")]
        if bad:
            m = re.search(r"WARNING: ThreadSanitizer.*?(?=\n==================|\Z)", r.err, re.S)
            bad[0]["report"] = " | ".join(re.findall(r"(?:Read|Write|Previous \w+|Atomic \w+) of size[^\n]*|#[01] [^\n]*", m.group(0)))[:900] if m else ""
        return js
    def all_events():
        jobs = [(exe, wrap, sc, vlib.henv(1, TSAN_OPTIONS=TSAN)) for sc in scripts] if exe else []
        jobs += [(fast, (), [l for sc in real for l in sc], vlib.henv(8, OMP_DYNAMIC="false"))]
        with ThreadPoolExecutor(8) as ex: parts = list(ex.map(record, jobs))
        return [x for p in parts for x in p]
    ev = all_events()
    done = [j for j in ev if j["e"] == "case"]
    c.extra.update(computations=len({j["key"] for j in done}), schedules_replayed=sum(j["moves"] > 0 for j in done), scheduling_events=sum(j["moves"] for j in done), scheduling_events_validated=len(ev) - len(done),
                   stand_in_runtime=bool(exe))
    c.validate("ThreadsTrace", ev, what="threads and schedules", ntraces=len(done), redo=all_events, timeout=800 if c.quick else 3000)
    c.assumptions += ["any two accesses OpenMP leaves unordered are reported by ThreadSanitizer when both are executed, in whatever order (the stand-in runtime tells it only the orderings OpenMP promises); bounded by its memory of the last accesses to a place",
                      "host engines (openmp, block, simple_bh, ah); the devices of the OpenCL engine are the subject of C15"]

vlib.main("C23", check)
