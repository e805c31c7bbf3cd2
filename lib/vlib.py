"""Shared machinery of the checks: building /repo's current tree, running harnesses, TLC, evidence.

Outcomes of a check (see main()):
  exit 0   the property held on everything explored (KNOWN-FINDING lines possible)
  exit 1   VIOLATION property=<id> replay=<path>
  exit 2   the check itself could not do its job (build failed, TLC failed, ...)
"""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
QMAKE = "/usr/lib/x86_64-linux-gnu/qt5/bin/qmake"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
QTINC = "/usr/include/x86_64-linux-gnu/qt5"


class CheckError(Exception):
    """The check could not be carried out."""


class Violation(Exception):
    """The property does not hold: what is a short text, detail a JSON-able object for the replay file."""
    def __init__(self, what, detail=None, files=()):
        Exception.__init__(self, what)
        self.what, self.detail, self.files = what, detail, list(files)


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=900, cwd=None, env=None, check=True, input=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        if check:
            raise CheckError("timeout after %ss: %s" % (timeout, " ".join(map(str, cmd))[:300]))
        return -1000, b""
    if check and p.returncode != 0:
        raise CheckError("%s\nexit %s\n%s" % (" ".join(map(str, cmd))[:400], p.returncode, out.decode("utf8", "replace")[-4000:]))
    return p.returncode, out


def tree_hash(*dirs, extra=""):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read()); continue
        for root, sub, files in os.walk(d):
            sub[:] = sorted(s for s in sub if s not in (".git", "_build", "build"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


VARIANTS = {
    # asan: out-of-bounds and use-after-free in the library become crashes, and fresh memory is filled
    "asan": (["-O1", "-g1", "-march=x86-64-v2", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"], ["-fsanitize=address"]),
    "fast": (["-O2", "-march=x86-64-v2", "-w"], []),
    # tsan: memory accesses of the library are reported to ThreadSanitizer (used with harness/omprt.cpp in the place of libgomp)
    "tsan": (["-O1", "-g1", "-march=x86-64-v2", "-fsanitize=thread", "-w"], ["-fsanitize=thread"]),
}


def build_lib(variant="asan", progs=()):
    """Builds libnbody (and the programs named in progs, e.g. test/main) from /repo's working tree."""
    cxx, ld = VARIANTS[variant]
    root = os.path.join(BUILD, "lib-" + variant)
    stamp = os.path.join(root, ".stamp")
    want = tree_hash(os.path.join(REPO, "nbody"), os.path.join(REPO, "pri"), os.path.join(REPO, "test", "main"),
                     os.path.join(REPO, "player"), extra=" ".join(cxx + ld))
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        if os.environ.get("VERIF_INCREMENTAL"):        # mutation campaigns only: make goes by the times of the changed files
            for d, sub, files in os.walk(root):
                for f in files:
                    if f == ".done": os.unlink(os.path.join(d, f))
        else:
            shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root, exist_ok=True)
    t = time.time()
    for sub in ("nbody",) + tuple(progs):
        d = os.path.join(root, sub)
        done = os.path.join(d, ".done")
        if os.path.exists(done):
            continue
        os.makedirs(d, exist_ok=True)
        pro = os.path.join(REPO, sub, os.path.basename(sub) + ".pro")
        args = [QMAKE, pro, "CONFIG+=release", "OPEN_CV_VERSION_MAJOR=4", "-after",
                "QMAKE_CXXFLAGS_RELEASE+=" + " ".join(cxx), "QMAKE_CFLAGS_RELEASE+=-march=x86-64-v2",
                "QMAKE_LFLAGS+=" + " ".join(ld)]
        sh(args, cwd=d, timeout=120)
        sh(["make", "-j8"], cwd=d, timeout=600)
        open(done, "w").write("ok")
    open(stamp, "w").write(want)
    log("build %s: %.1fs" % (variant, time.time() - t))
    return root


def build_harness(name, variant="asan", srcs=None, extra=(), libs=(), modules=("Core", "Gui"), prog=None):
    """prog: a program of /repo (player) whose objects, its main apart, are linked into the harness."""
    root = build_lib(variant, (prog,) if prog else ())
    objs = []
    if prog:
        for d, sub, files in sorted(os.walk(os.path.join(root, prog))):
            objs += [os.path.join(d, f) for f in sorted(files) if f.endswith(".o") and f != "main.o"]
    src = [os.path.join(VERIF, "harness", s) for s in (srcs or [name + ".cpp"])]
    cxx, ld = VARIANTS[variant]
    outdir = os.path.join(BUILD, "harness-" + variant)
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, name)
    want = tree_hash(os.path.join(VERIF, "harness"), os.path.join(REPO, "nbody"), *([os.path.join(REPO, prog)] if prog else []), extra=" ".join(cxx) + " ".join(extra))
    st = out + ".stamp"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == want:
        return out
    cmd = ["g++", "-std=gnu++17", "-fPIC", "-fopenmp", "-pipe"] + cxx + list(extra)
    cmd += ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "nbody"), "-I" + QTINC,
            "-DHAVE_OPENMP", "-DHAVE_OPENCL", "-DHAVE_OPENCL2"]
    for m in modules:
        cmd += ["-I%s/Qt%s" % (QTINC, m)]
    cmd += src + objs + ["-o", out, "-rdynamic", "-L" + os.path.join(root, "lib"), "-Wl,-rpath," + os.path.join(root, "lib"), "-lnbody"]
    cmd += ["-lQt5" + m for m in modules] + list(libs) + ld + ["-ldl", "-lpthread"]
    sh(cmd, timeout=600)
    open(st, "w").write(want)
    return out


ASAN_OPTS = "detect_leaks=0:halt_on_error=1:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=1:detect_odr_violation=0:abort_on_error=0"


def henv(threads=4, **kw):
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", QT_QPA_PLATFORM="offscreen", OMP_NUM_THREADS=str(threads), ASAN_OPTIONS=ASAN_OPTS,
             QT_LOGGING_RULES="*.debug=false", OMP_WAIT_POLICY="passive")
    e.update({k: str(v) for k, v in kw.items()})
    return e


class HarnessResult:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out
        self.crashed = timed_out or rc < 0 or rc == 99 or rc >= 128
    def lines(self):
        return [l for l in self.out.split("\n") if l]
    def json(self):
        r = []
        for l in self.lines():
            if l.startswith("{"):
                r.append(json.loads(l))
        return r


def run_harness(exe, args=(), stdin=None, timeout=300, env=None, wrap=(), cwd=None):
    p = subprocess.Popen(list(wrap) + [exe] + [str(a) for a in args], stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or henv(), cwd=cwd, start_new_session=True)
    to = False
    try:
        out, err = p.communicate(stdin.encode() if stdin is not None else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return HarnessResult(p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), to)


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg=None, timeout=600, workers="8", env=None, args=(), mem="6g", dfs=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg or module>.cfg; returns ok/out/states/distinct/diameter/prints."""
    meta = os.path.join(BUILD, "tlc-%d-%d" % (os.getpid(), random.SystemRandom().randrange(1 << 30)))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    jopts = ["-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Dtlc2.tool.impl.Tool.cdot=true"]
    if dfs:
        jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java"] + jopts + ["-cp", TLAJARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-cleanup",
           "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        rc, out = sh(cmd, timeout=timeout, cwd=SPEC, env=e, check=False)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out, r.wall = rc, out.decode("utf8", "replace"), time.time() - t
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", r.out)
    r.states = int(m[-1][0].replace(",", "")) if m else 0
    r.distinct = int(m[-1][1].replace(",", "")) if m else 0
    if not m:
        m = re.findall(r"([\d,]+) states checked", r.out)
        r.states = r.distinct = int(m[-1].replace(",", "")) if m else 0
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
    r.diameter = int(m[-1]) if m else 0
    r.violated = re.findall(r"(?:Invariant|Temporal propert\w*|Action property|property) (\w+) (?:is|was|were) violated", r.out)
    r.postfail = "ostcondition" in r.out and ("violated" in r.out or "false" in r.out.lower())
    r.ok = rc == 0
    r.prints = []
    for l in r.out.split("\n"):
        l = l.strip()
        if l.startswith('"@@') and l.endswith('"'):
            r.prints.append(json.loads(l[1:-1].replace('\\"', '"').replace("\\\\", "\\")[2:]))
    return r


def model_check(module, cfg=None, timeout=600, **kw):
    """Exhaustive check of a specification: anything but success is an error of the check itself."""
    r = tlc(module, cfg, timeout, **kw)
    if not r.ok:
        raise CheckError("TLC on %s/%s failed (rc %s):\n%s" % (module, cfg or module, r.rc, r.out[-4000:]))
    log("TLC %s: %d states, %d distinct, depth %d, %.1fs" % (cfg or module, r.states, r.distinct, r.diameter, r.wall))
    return r


def validate_trace(module, events, cfg=None, timeout=600, tag="trace", keep=None, mem="6g", extra_env=None):
    """Checks recorded events against the trace specification <module>.
    The trace spec prints the index of the longest matched prefix in an alias "@@{"matched":n}" line.
    Returns (accepted, matched, TlcResult)."""
    d = os.path.join(BUILD, "traces")
    os.makedirs(d, exist_ok=True)
    path = keep or os.path.join(d, "%s-%d.ndjson" % (tag, os.getpid()))
    def plain(x):            # numbers the model checker cannot hold become words, which no specification expects
        if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [plain(v) for v in x]
        if isinstance(x, float) and not (-1e300 < x < 1e300): return "number %r" % x
        if x is None: return "nothing"
        if isinstance(x, int) and not -2**31 < x < 2**31: return "number %d" % x
        return x
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(plain(e)) + "\n")
    env = {"TRACE": path}
    env.update(extra_env or {})
    r = tlc(module, cfg, timeout, workers="1", env=env, mem=mem)
    m = [p for p in r.prints if isinstance(p, dict) and "matched" in p]
    if not m and r.violated:
        ls = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
        if ls:
            m = [dict(matched=max(0, int(ls[-1]) - 2))]
    if not m and re.search(r"Attempted to|Evaluating|verflow|TLC threw|was not in the domain|The exception was|unexpected exception", r.out) and not re.search(r"Deserialize|StackOverflow|stack overflow|OutOfMemory|out of memory|GC overhead|IOException|No space", r.out):
        ls = re.findall(r"^/\\ l = (\d+)", r.out, re.M)        # an event the specification has no meaning for
        if ls and 1 <= int(ls[-1]) <= len(events):
            log("event %s: %s" % (ls[-1], " ".join(r.out[r.out.find("Error:"):][:400].split())))
            m = [dict(matched=int(ls[-1]) - 1)]
    if not m:
        raise CheckError("trace validation with %s did not finish (rc %s):\n%s" % (module, r.rc, r.out[-4000:]))
    matched = max(p["matched"] for p in m)
    if not keep:
        os.unlink(path)
    if matched == len(events) and not r.ok:
        raise CheckError("trace validation with %s: inconsistent result\n%s" % (module, r.out[-4000:]))
    return matched == len(events), matched, r


# ---------------------------------------------------------------- check driver
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.ran = False
        self.extra = {}
        self.assumptions = []
        self.scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def tmp(self, name):
        return os.path.join(self.scratch, name)

    def model(self, module, cfg=None, **kw):
        r = model_check(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        return r

    def behaviours(self, module, cfg=None, **kw):
        """Behaviours generated by TLC from the specification (printed as JSON)."""
        r = tlc(module, cfg, **kw)
        if not r.ok or not r.prints:
            raise CheckError("TLC generation with %s/%s failed (rc %s):\n%s" % (module, cfg or module, r.rc, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.states
        log("TLC generation %s: %d behaviours, %.1fs" % (cfg or module, len(r.prints), r.wall))
        return sorted(r.prints, key=lambda p: json.dumps(p, sort_keys=True))

    def validate(self, module, events, cfg=None, what="", ntraces=1, redo=None, **kw):
        """Validates a recorded trace; a rejection is re-recorded (redo) and re-checked before it is reported."""
        ok, matched, r = validate_trace(module, events, cfg, tag=self.pid, **kw)
        self.states += r.distinct
        self.transitions += r.states
        if not ok:
            if redo is not None:
                for attempt in range(3):        # a data race may need several attempts
                    events2 = redo()
                    ok2, matched2, r2 = validate_trace(module, events2, cfg, tag=self.pid, **kw)
                    if not ok2:
                        break
                if ok2:
                    raise CheckError("rejection at event %d did not repeat: %s" % (matched, events[matched]))
                events, matched, r = events2, matched2, r2
            else:
                ok2, matched2, r2 = validate_trace(module, events, cfg, tag=self.pid, **kw)
                if ok2 or matched2 != matched:
                    raise CheckError("unstable trace validation")
            bad = events[matched]
            raise Violation("%s: the specification %s does not allow event %d: %s" % (what or module, module, matched, json.dumps(bad)[:600]),
                            dict(module=module, matched=matched, event=bad, before=events[max(0, matched - 12):matched]))
        self.traces += ntraces
        self.events += len(events)
        log("trace of %d events (%d behaviours) accepted by %s" % (len(events), ntraces, module))
        return r

    def harness(self, exe, args=(), stdin=None, what="", **kw):
        """Runs a harness; a crash, sanitizer report or hang of the real code, repeated, is a violation."""
        self.ran = True
        r = run_harness(exe, args, stdin, **kw)
        if r.crashed:
            r2 = run_harness(exe, args, stdin, **kw)
            if not r2.crashed:
                raise CheckError("crash did not repeat: %s\n%s" % (what, r.err[-3000:]))
            kind = "hangs" if r2.timed_out else "crashes"
            last = [l for l in r2.out.split("\n") if l][-3:]
            m = re.search(r"ERROR: AddressSanitizer: [^\n]*", r2.err)
            raise Violation("%s: the code under test %s (rc %s) %s" % (what or os.path.basename(exe), kind, r2.rc, m.group(0)[:200] if m else ""),
                            dict(args=[str(a) for a in args], stdin=(stdin or "")[-20000:], stderr=r2.err[-6000:], last_output=last))
        if r.rc == 3:            # the code under test refused what it has to do here (make an engine, open a stream, ...)
            r2 = run_harness(exe, args, stdin, **kw)
            if r2.rc == 3:
                raise Violation("%s: the code under test refuses what it has to accept" % (what or os.path.basename(exe)),
                                dict(args=[str(a) for a in args], stdin=(stdin or "")[-20000:], stderr=r2.err[-6000:], last_output=[l for l in r2.out.split("\n") if l][-3:]))
        if r.rc != 0:
            raise CheckError("harness failed: rc %s\n%s\n%s" % (r.rc, r.out[-1500:], r.err[-3000:]))
        return r

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(pid, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 1:
        tier = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    c = Ctx(pid, tier, seed)
    viol = None
    UNREADABLE = (ArithmeticError, LookupError, TypeError, ValueError, StopIteration)
    try:
        try:
            fn(c)
        except UNREADABLE as e:
            # what the real code did is nothing the specification has a word for (amounts that are no numbers, missing parts): if it is so again, that is the answer
            import traceback
            first = traceback.format_exc()
            if not c.ran: raise
            log(first)
            shutil.rmtree(c.scratch, ignore_errors=True)
            c = Ctx(pid, tier, seed)
            try: fn(c)
            except UNREADABLE as e2:
                if type(e2) is type(e) and c.ran: raise Violation("recorded behaviour cannot be read as one of the specification: %r" % e2, dict(trace=first))
                raise
    except Violation as v:
        viol = v
    except CheckError as e:
        log("CHECK-ERROR property=%s %s" % (pid, e))
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        log("CHECK-ERROR property=%s internal error" % pid)
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.exit(2)
    cov = dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces,
               samples=c.samples or ["(none)"], impl_events=c.events)
    cov.update(c.extra)
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov,
              assumptions=c.assumptions, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(c.scratch, ignore_errors=True)
    if viol:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%d.json" % (pid, int(time.time())))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, what=viol.what, detail=viol.detail, seed=seed, tier=tier,
                           rerun="VERIF_SEED=%d bash %s/run.sh %s %s" % (seed, VERIF, pid, tier)), f, indent=1)
        log(viol.what)
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    log("property %s held: %d model states, %d impl behaviours, %d events, %.1fs" % (pid, c.states, c.traces, c.events, time.time() - t0))
    sys.exit(0)
