import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def check(c):
    c.model("MCRun")
    c.model("MCRun", "MCRunLive")
    exe = vlib.build_harness("run")
    ps = c.behaviours("MCRun", "RunGen")
    c.rng.shuffle(ps)
    n = c.pick(700, 6000)
    ps = ps[:2 * n]
    c.sample(ps[0])
    lines = []
    for i in range(n):
        p, q = ps[2 * i], ps[2 * i + 1]
        dyadic = i % 3 == 0
        dt = c.rng.choice(["0.3125", "20", "0.00030517578125"] if dyadic else ["0.1", "0.01", "0.001", "0.7", "1e-5", "3"])
        def tm(x):      # whole multiples of a step are only compared exactly when the arithmetic is exact
            return x if dyadic or x % 20 else x + 9
        runs = 1 if i % 4 else 2
        def part(r, t):
            return [tm(t), r["dump"], r["chk"], int(r["stream"]), r["failat"]]
        t0 = p["t0"] if dyadic or runs == 1 or p["t0"] != -40 else -7
        args = [dt, t0, c.rng.choice([1, 2, 5]), p["visitors"], int(p["clamp"]), runs] + part(p, p["tmax"])
        if not dyadic and (tm(p["tmax"]) - t0) % 20 == 0:
            args[6] += 3
        if runs == 2:
            second = part(q, max(q["tmax"], p["tmax"]) + 60)
            if not dyadic and (second[0] - t0) % 20 == 0:
                second[0] += 3
            args += second
        lines.append("case " + " ".join(map(str, args)))
    text = "\n".join(lines) + "\n"
    def record():
        return c.harness(exe, stdin=text, what="nbody_solver::run").json()
    c.validate("RunTrace", record(), what="schedule of nbody_solver::run", ntraces=n, redo=record, timeout=c.pick(400, 3000))
    c.assumptions += ["intervals whose decision hinges on floating-point rounding (interval less a tenth of a step equal to a whole number of steps) are not compared"]

vlib.main("C06", check)
