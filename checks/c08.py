import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, solverlib

EXPLICIT = ["rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14"]
THR = 0.25
VAL = dict(lo=0.125, eq=THR, hi=0.5)
TOL = 1e-9

def near(a, b, scale=1.0):
    return abs(a - b) <= TOL * scale

class Decoder:
    """Reads a recorded step of one solver with the help of its undivided step (table of one trial)."""
    def __init__(self, ref, implicit=None):
        self.n = len(ref["evals"])
        t = solverlib.tableau(ref, 0)
        self.b, self.err, self.a = t["b"], t["err"][0], t["a"]
    def trials(self, step, unit):
        evs = step["evals"]
        out = []
        if len(evs) % self.n:
            return None
        for i in range(len(evs) // self.n):
            mine = evs[i * self.n:(i + 1) * self.n]
            ids = [str(e["id"]) for e in mine]
            norm = [v for v, k in zip(step["norms"], step["norm_at"]) if k == (i + 1) * self.n]
            k1 = ids[0]
            # length of the trial: the second stage goes a21 * dt along the first derivative
            j = next((j for j in range(1, self.n) if self.a[j][0] != 0), None)
            if j is None: return None
            dt = mine[j]["arg"].get(k1, 0.0) / self.a[j][0]
            base = self.accepted(mine[0]["arg"], out)
            ok = base is not None
            for j in range(self.n):                 # all stages belong to this trial and this base
                want = dict(mine[0]["arg"])
                for q in range(self.n):
                    if self.a[j][q]:
                        want[ids[q]] = want.get(ids[q], 0) + self.a[j][q] * dt
                ok = ok and self.same(want, mine[j]["arg"])
            est = self.estimate(norm, {ids[q]: self.err[q] for q in range(self.n)})
            c = mine[0]["c"] / unit if unit else 0
            out.append(dict(ids=ids, dt=dt, base=base, ok=ok, est=est, at=mine[0]["c"]))
        return out
    def ends(self, n):
        """Numbers of evaluations made at the end of trials 1 to n."""
        return [(i + 1) * self.n for i in range(n)]
    def estimate(self, norms, want):
        return "none" if not norms else "right" if all(self.same(want, v) or self.same({k: -x for k, x in want.items()}, v) for v in norms) else "wrong"
    @staticmethod
    def same(x, y):
        return all(near(x.get(k, 0.0), y.get(k, 0.0), 1 + abs(x.get(k, 0.0))) for k in set(x) | set(y))
    def accepted(self, lin, trials):
        """Numbers of the trials whose steps make up the state lin; None if it is no such sum."""
        rest = {k: v for k, v in lin.items()}
        if abs(rest.pop("0", 0) - 1) > 1e-14:
            return None
        got = []
        for i, t in enumerate(trials):
            if any(k in rest for k in t["ids"]):
                for q, k in enumerate(t["ids"]):
                    if not near(rest.pop(k, 0.0), t["dt"] * self.b[q], abs(t["dt"]) * 4):
                        return None
                got.append(i + 1)
        return got if not any(abs(v) > 1e-12 for v in rest.values()) else None

class ImplicitDecoder(Decoder):
    """Lobatto IIIC: stages are refined from the latest derivatives, the first approach is made in the first call only."""
    def __init__(self, ref, refine):
        self.n, self.refine = 3, refine
        self.A = [[1 / 6., -1 / 3., 1 / 6.], [1 / 6., 5 / 12., -1 / 12.], [1 / 6., 2 / 3., 1 / 6.]]
        last = [str(e["id"]) for e in ref["evals"][-3:]]
        self.b = [ref["y"].get(k, 0.0) / ref["dt"] for k in last]
        self.err = [ref["norms"][0].get(k, 0.0) for k in last]
    def ends(self, n):
        return [4 + 3 * self.refine * (i + 1) for i in range(n)]
    def trials(self, step, unit):
        evs = step["evals"]
        per = 3 * self.refine
        if (len(evs) - 4) % per:
            return None
        cuts = [0] + self.ends((len(evs) - 4) // per)
        out, cur = [], None
        for i in range(len(cuts) - 1):
            mine = evs[cuts[i]:cuts[i + 1]]
            norm = [v for v, k in zip(step["norms"], step["norm_at"]) if k == cuts[i + 1]]
            ids = [str(e["id"]) for e in mine]
            first = len(mine) == 4 + 3 * self.refine
            if not first and (len(mine) != 3 * self.refine or cur is None):
                return None
            ok = True
            if first:
                dt = mine[3]["arg"].get(ids[0], 0.0)
                base_lin = mine[0]["arg"]
                for q, cc in enumerate((0, 0.5, 1)):
                    want = dict(base_lin); want[ids[0]] = want.get(ids[0], 0) + cc * dt
                    ok = ok and self.same({k: v for k, v in want.items() if v}, mine[1 + q]["arg"])
                cur = ids[1:4]
                rest, rids = mine[4:], ids[4:]
            else:
                dt = mine[0]["c"]      # unused: solved below
                rest, rids = mine, ids
                # the length follows from the evaluation times of stages 1 and 3 (0 and dt)
                dt = (mine[2]["c"] - mine[0]["c"]) * step["dt"]
                base_lin = dict(mine[0]["arg"])
                for q in range(3):
                    base_lin[cur[q]] = base_lin.get(cur[q], 0) - dt * self.A[0][q]
                base_lin = {k: v for k, v in base_lin.items() if abs(v) > 1e-13}
            for m, e in enumerate(rest):
                st = m % 3
                want = dict(base_lin)
                for q in range(3):
                    want[cur[q]] = want.get(cur[q], 0) + dt * self.A[st][q]
                ok = ok and self.same(want, e["arg"])
                cur = list(cur); cur[st] = rids[m]
            base = self.accepted(base_lin, out)
            est = self.estimate(norm, dict(zip(cur, self.err)))
            out.append(dict(ids=list(cur), dt=dt, base=base, ok=ok and base is not None, est=est, at=mine[0]["c"]))
        return out

def check(c):
    c.model("MCAdapt")
    pats = c.behaviours("MCAdapt", "AdaptGen")
    for p in pats:
        # a verdict that is not "above" may also be "equal"
        p["errs"] = [e if e == "hi" else c.rng.choice(["lo", "lo", "eq"]) for e in p["errs"]]
    c.rng.shuffle(pats)
    short = [p for p in pats if len(p["errs"]) <= 5]
    exe = vlib.build_harness("solver")
    n = c.pick(500, 6000)
    refine = 2
    text = []
    for name in EXPLICIT + ["rklc"]:
        text += ["new 0 solver=%s refine_steps_count=%d error_threshold=%g" % (name, refine, THR), "err 0", "step 1", "end"]
    for mx in range(1, 7):
        text += ["new 0 solver=bs max_level=%d error_threshold=%g" % (mx, THR), "err 0.5", "step 1", "end"]
    js = [j for j in c.harness(exe, stdin="\n".join(text) + "\n", what="step control", timeout=200).json() if j["e"] == "step"]
    ref = {name: (ImplicitDecoder(s, refine) if name == "rklc" else Decoder(s)) for name, s in zip(EXPLICIT + ["rklc"], js)}
    bsref = dict(zip(range(1, 7), js[len(ref):]))
    text, cases = [], []
    for i in range(n):
        p = short[i % len(short)] if i % 5 == 0 else pats[i % len(pats)]
        big = c.rng.random() < 0.15 and c.quick is False or len(p["errs"]) < 12
        name = c.rng.choice(EXPLICIT + ["rklc", "rklc"]) if big else c.rng.choice(["rkck", "rkdp", "rkdverk", "rkf", "rklc"])
        unit = c.rng.choice([1.0, 0.5, 2.0 ** -6])
        dt = p["len"] * unit
        corr = " correction=true" if name != "rklc" and c.rng.random() < 0.2 else ""
        text.append("new %s solver=%s refine_steps_count=%d error_threshold=%.17g max_recursion=%d substep_subdivisions=%d min_step=%.17g max_step=%.17g%s" %
                    (c.rng.choice(["0", "0.5", "-2"]), name, refine, THR, p["rec"], p["sub"],
                     # a minimum equal to a sub-interval is compared exactly only when the division is exact
                     (p["minlen"] if p["sub"] in (1, 2, 4, 8) or p["minlen"] == 0 else p["minlen"] + 0.25) * unit, dt, corr))
        text.append("errat 0.125 " + " ".join("%d %g" % (k, VAL[e]) for k, e in zip(ref[name].ends(len(p["errs"])), p["errs"])))
        text += ["step %.17g" % dt, "end"]
        cases.append(("rk", name, p, unit))
    import itertools
    for mx in range(1, 7):
        for errs in itertools.product(["lo", "eq", "hi"], repeat=max(0, mx - 2)):
            if len(errs) > 2 and c.quick and c.rng.random() < 0.5:
                continue
            text += ["new %s solver=bs max_level=%d error_threshold=%g" % (c.rng.choice(["0", "0.5"]), mx, THR),
                     "errat 0.5 " + " ".join("%d %g" % (len(bsref[lv + 3]["evals"]), VAL[e]) for lv, e in enumerate(errs)), "step 1", "end"]
            cases.append(("bs", mx, list(errs)))
    script = "\n".join(text) + "\n"
    c.sample(cases[20][2] if len(cases) > 20 else {})

    def record():
        js = c.harness(exe, stdin=script, what="step control", timeout=200).json()
        steps = [j for j in js if j["e"] == "step"]
        if len(steps) != len(cases):
            raise vlib.CheckError("harness output incomplete")
        evs = []
        for k, s in zip(cases, steps):
            if k[0] == "rk":
                name, p, unit = k[1:]
                d = ref[name]
                # lengths that the minimum is compared with as recorded above
                mn = p["minlen"]
                evs.append(dict(e="begin", rec=p["rec"], sub=p["sub"], len=p["len"], minlen=mn, solver=name))
                tr = d.trials(s, unit)
                if tr is None:
                    evs.append(dict(e="garbled", why="evaluations do not form trials"))
                    continue
                for i, t in enumerate(tr):
                    evs.append(dict(e="trial", at=int(round(t["at"] * p["len"])), len=int(round(t["dt"] / unit)), base=t["base"] if t["ok"] else [-1],
                                    estimate=t["est"], err=p["errs"][i] if i < len(p["errs"]) else "lo"))
                evs.append(dict(e="end", y=d.accepted(s["y"], tr) or [-1], steps=s["steps"], timeok=s["timeok"], trials=len(tr)))
            else:
                mx, errs = k[1:]
                # levels actually computed, and of which level's extrapolation the result is
                ne = {len(r["evals"]): lv for lv, r in bsref.items()}
                level = ne.get(len(s["evals"]), 0)
                shift = int(s["evals"][0]["id"]) - 1
                result = [lv for lv, r in bsref.items() if Decoder.same(r["y"], s["y"])]
                starts = [0] + [len(bsref[lv]["evals"]) for lv in sorted(bsref) if lv < level]
                fresh = all(Decoder.same({"0": 1.0}, s["evals"][q]["arg"]) for q in starts)
                evs.append(dict(e="bs", max=mx, errs=errs, level=level, result=result[0] if result else 0, fresh=fresh, timeok=s["timeok"]))
        return evs
    c.validate("AdaptTrace", record(), what="step control", ntraces=len(cases), redo=record)
    c.assumptions += ["error estimates are scripted through the engine's maximum norm; NaN estimates are not considered"]

vlib.main("C08", check)
