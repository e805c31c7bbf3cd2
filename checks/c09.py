import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from fractions import Fraction

STARTERS = ["euler", "midpoint", "midpoint-st", "rk4", "trapeze", "rkck", "rkdverk", "rkgl", "rklc", "bs"]
OTHERS = ["euler", "midpoint", "midpoint-st", "rk4", "trapeze", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkgl", "rklc", "bs"]
TOL = 1e-9

class Canon:
    """Names for evaluations and states that agree whenever they are the same function of the state at the last reset."""
    def __init__(self):
        self.fs, self.states = {}, {}
    @staticmethod
    def find(table, key, lin):
        for other, name in table.setdefault(key, []):
            if all(abs(other[k] - lin[k]) <= TOL * (1 + abs(lin[k])) for k in lin):
                return name
        return None
    def f(self, at, lin):
        key = (round(at, 6), tuple(sorted(lin)))
        n = self.find(self.fs, key, lin)
        if n is None:
            n = 1 + sum(map(len, self.fs.values()))
            self.fs[key].append((lin, n))
        return n
    def state(self, lin):
        key = tuple(sorted(lin))
        n = self.find(self.states, key, lin)
        if n is None:
            n = 1 + sum(map(len, self.states.values()))
            self.states[key].append((lin, n))
        return n

class Segment:
    """Steps since creation or a reset; symbols translated to the names of a Canon."""
    def __init__(self, canon, base, t0, res0):
        self.c, self.base, self.t0, self.res0 = canon, base, t0, res0
        self.names = {}
        self.y = {0: 1.0}
        self.strange = 0
    def lin(self, l):
        r = {}
        for k, x in l.items():
            k = int(k)
            if 2000000 <= k:
                if k >= self.res0: continue      # residual of a compensated addition since the reset
                n = -k
            elif k == self.base: n = 0
            elif k in self.names: n = self.names[k]
            else: n = -k - 1                     # belongs to the time before the reset, or to no evaluation
            r[n] = r.get(n, 0.0) + x
        return {k: x for k, x in r.items() if abs(x) > 1e-13}
    def step(self, s):
        self.at = s["t"] - self.t0
        self.evals = []
        for e in s["evals"]:
            a = self.lin(e["arg"])
            at = self.at + e["c"] * s["dt"]
            n = self.c.f(at, a)
            self.names[int(e["id"])] = n
            self.evals.append((n, at, a))
        self.before, self.y = self.y, self.lin(s["y"])
        return self.y

def rat(x):
    f = Fraction(x).limit_denominator(720)
    return [f.numerator, f.denominator] if abs(float(f) - x) < 1e-9 else [0, 0]

def check(c):
    c.model("MCAdams")
    exe = vlib.build_harness("solver")
    text, cases = [], []
    bases = iter(range(500001, 900000))
    def run(kind, params, segments, dt, rank=0, starter=None, residual=False, t0=0.0):
        text.append("new %.17g %s" % (t0, params))
        text.append("err 0")
        if residual: text.append("residual")
        bs = [0]
        for i, n in enumerate(segments):
            if i:
                b = next(bases); bs.append(b)
                text.extend(["reset", "rebase %d" % b])
            text.extend(["step %.17g" % dt] * n)
        text.append("end")
        cases.append(dict(kind=kind, params=params, segments=segments, dt=dt, rank=rank, starter=starter, bases=bs, t0=t0))
    fixed = {}
    def starter_run(params, dt, n, t0):
        key = (params, dt)
        if fixed.get(key, 0) < n:
            run("starter", params, [n], dt, t0=t0)
            fixed[key] = n
    reps = c.pick(1, 6)
    for rep in range(reps):
        for rank in range(1, 6):
            for st in STARTERS:
                for corr in ("false", "true"):
                    dt = c.rng.choice([1.0, 0.5, 2.0 ** -4])
                    t0 = c.rng.choice([0.0, 0.0, 3.0, -0.5])
                    p = "rank=%d refine_steps_count=%d correction=%s max_level=3 error_threshold=1" % (rank, c.rng.choice([1, 2]), corr)
                    starter_run("solver=%s %s" % (st, p), dt, rank + 3, t0)
                    segs = [rank + 1 + c.rng.randrange(1, 2 * rank + 4)]
                    for _ in range(c.rng.choice([1, 1, 2, 3])):
                        segs.append(c.rng.choice([0, 1, 2, rank, rank + 1, rank + 2, 2 * rank + 3, 3 * rank + 2]))
                    run("adams", "solver=adams starter_solver=%s %s" % (st, p), segs, dt, rank, "solver=%s %s" % (st, p), corr == "true", t0)
        for name in OTHERS:
            for corr in ("false", "true"):
                for refine in (1, 2):
                    p = "solver=%s refine_steps_count=%d correction=%s max_level=3 error_threshold=1" % (name, refine, corr)
                    run("other", p, [3, c.rng.randrange(0, 3), 3, 4], c.rng.choice([1.0, 0.25]), residual=corr == "true")
        for i in range(6):
            run("st", "solver=midpoint-st", [c.rng.randrange(1, 12) for _ in range(3)], c.rng.choice([1.0, 0.5, 2.0 ** -5]), t0=c.rng.choice([0.0, 2.0, -1.0]))
    script = "\n".join(text) + "\n"
    c.sample(cases[1])

    def record():
        js = [j for j in c.harness(exe, stdin=script, what="multistep solvers", timeout=200).json() if j["e"] in ("step", "end")]
        it = iter(js)
        canon = Canon()
        starters, evs = {}, []
        for k in cases:
            steps = []
            for j in it:
                if j["e"] == "end": break
                steps.append(j)
            if len(steps) != sum(k["segments"]):
                raise vlib.CheckError("harness output incomplete")
            pos = 0
            if k["kind"] in ("adams", "other"):
                evs.append(dict(e="new", rank=k["rank"], what=k["params"]))
            for si, n in enumerate(k["segments"]):
                mine = steps[pos:pos + n]; pos += n
                if si and k["kind"] in ("adams", "other"):
                    evs.append(dict(e="reset"))
                if k["kind"] == "st":
                    evs.append(dict(e="unew"))
                if not mine: continue
                seg = Segment(canon, k["bases"][si], mine[0]["t"], mine[0]["res"])
                points = []
                for i, s in enumerate(mine):
                    y = seg.step(s)
                    st = canon.state(y)
                    if k["kind"] == "starter":
                        starters.setdefault((k["params"], k["dt"]), {})[i] = st
                    elif k["kind"] == "other":
                        evs.append(dict(e="step", state=st, timeok=s["timeok"], starter=False, only=False, comb=[]))
                    elif k["kind"] == "adams":
                        # derivative at this step's point
                        points.append(canon.f(seg.at, seg.before))
                        d = {q: y.get(q, 0.0) - seg.before.get(q, 0.0) for q in set(y) | set(seg.before)}
                        d = {q: x / k["dt"] for q, x in d.items() if abs(x) > 1e-10}
                        comb = []
                        for age in range(min(k["rank"], len(points))):
                            comb.append(rat(d.pop(points[-1 - age], 0.0)))
                        evs.append(dict(e="step", state=st, timeok=s["timeok"], starter=starters[(k["starter"], k["dt"])].get(i) == st,
                                        only=not d, comb=comb, what=k["params"], n=i))
                    else:
                        def quarters(l):
                            return sorted([q, int(round(4 * x / (k["dt"] if q else 1.0)))] if abs(4 * x / (k["dt"] if q else 1.0) - round(4 * x / (k["dt"] if q else 1.0))) < 1e-9 else [q, 99999] for q, x in l.items())
                        evs.append(dict(e="ustep", timeok=s["timeok"], y=quarters(y),
                                        evals=[dict(s=a, at=int(round(2 * b / k["dt"])), arg=quarters(l)) for a, b, l in seg.evals]))
        return evs
    c.validate("AdamsTrace", record(), what="multistep solvers", ntraces=len(cases), redo=record)
    c.assumptions += ["within one start-to-reset phase the step size is constant", "solvers are observed through the engine interface; the engines' own arithmetic is the subject of C11"]

vlib.main("C09", check)
