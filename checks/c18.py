import os, sys, math, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *

DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 2), (-1, 2, 2), (2, -2, 1)]        # integer lengths 1, 3

def check(c):
    c.model("MCStats", c.pick("MCStats", "MCStatsBig"))
    gen = c.behaviours("MCStats", "StatsGen")
    rng = c.rng
    def bodies(n, masses=None):
        """on one line, so that distances are integers up to 4 steps; masses multiples of 12"""
        d = rng.choice(DIRS if n < 6 else DIRS[:3])         # (small enough for TLC's integers)
        off = [rng.randrange(-3, 4) for _ in range(3)] if n < 6 else [0, 0, 0]
        out = []
        for i in range(n):
            k = rng.randrange(5)
            out.append([off[j] + d[j] * k for j in range(3)] + [rng.randrange(-2, 3) for _ in range(3)] + [masses[i] if masses else rng.choice([12, 24, 36])])
        return out
    flat = lambda b: "%d %s" % (len(b), " ".join(str(x) for r in b for x in r))
    cmds = []
    for k in range(c.pick(350, 4000)):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5]) if rng.random() < .97 else rng.choice([20, 33])
        b = bodies(n)
        m = [x[6] for x in b]
        eng = rng.choice(["simple", "simple", "openmp", "block", "simple_bh", "ah"])
        cmds.append("start %s %s %d %s" % (eng, 0, 0, flat(b)))
        t, st = rng.choice([0.5, 1, 3, 0, 0]), rng.choice([0, 0, 1, 2, 50])
        h = list(rng.choice(gen))
        if rng.random() < .6: h = [dict(op="list", list=["P", "L", "V", "E"])] + h
        if rng.random() < .5: h += rng.choice(gen)
        for o in h:
            if o["op"] == "list":
                l = list(o["list"])
                rng.shuffle(l)
                cmds.append("list " + ("".join(l) or "-"))
            elif o["op"] in ("bodies", "engine"): cmds.append("%s %s" % (o["op"], flat(bodies(n, m))))
            else:
                cmds.append("stat %d %g %d" % (o["engine"], t, st))
                if rng.random() < .5: t, st = rng.choice([(0, 0), (t + .25, st + 1), (t + 2, st + rng.randrange(200)), (t, st), (t / 2, st // 2)])       # goes on, is set back, or stays
    for k in range(c.pick(60, 600)): cmds.append("random %d %d %s" % (rng.choice([1, 2, 3, 10, 64, 100]), rng.randrange(10**6), rng.choice(["0", "1", "3"])))
    c.sample(dict(commands=cmds[:8]))
    def whole(v):
        """an integer, if the value is one up to rounding"""
        out = []
        for x in v:
            r = round(x) if isinstance(x, (int, float)) and math.isfinite(x) and abs(x) < 2**30 else None
            out.append(r if r is not None and abs(x - r) <= 1e-9 * max(1, abs(x)) else -999999999)
        return out
    def decode(js):
        for j in js:
            if j["e"] != "stat": continue
            j["ref"] = {q: whole(v) for q, v in j["ref"].items()}
            j["last"] = {q: whole(v) for q, v in j["last"].items()}
            j["finite"], j["dev"] = {}, {}
            err = j.pop("err")
            for q, e in err.items():
                j["finite"][q] = not isinstance(e, str)
                d2 = 0 if not j["finite"][q] else e / 100 * abs(j["ref"][q][0]) if q == "E" else (e / 100) ** 2 * sum(x * x for x in j["ref"][q])
                j["dev"][q] = whole([d2])[0] if d2 < 2**30 else -1
            # what the line says
            names = dict(P="dP", L="dL", V="Vcm", E="dE")
            ok = True
            for q, w in names.items():
                m = re.search(r"(?:^|\s)%s\s+(\S+)" % w, j["line"])
                if (m is not None) != (q in j["list"]): ok = False
                elif m:
                    want = err[q] if q != "V" else j["vcm"]
                    if isinstance(want, str): ok = ok and not re.match(r"^[-+0-9.e]+$", m.group(1))
                    else:
                        try: got = float(m.group(1))
                        except ValueError: got = math.nan
                        ok = ok and abs(got - want) <= 1e-3 * abs(want)
            j["logged"] = ok
            j.pop("vcm")
            j["list"] = list(j["list"])
        return js
    exe = vlib.build_harness("stats", "asan")
    def run():
        js = c.harness(exe, stdin="\n".join(cmds) + "\n", what="statistics", env=dict(vlib.henv(2), QT_LOGGING_RULES="*.debug=true"), timeout=600).json()
        if len(js) != len(cmds): raise vlib.CheckError("harness output incomplete")
        return decode(js)
    ev = run()
    c.extra["statistics"] = sum(j["e"] == "stat" for j in ev)
    c.validate("StatsTrace", ev, what="statistics", ntraces=sum(j["e"] == "start" for j in ev), redo=run)
    c.assumptions += ["exact totals on bodies with integer totals; arbitrary bodies against long double sums within 1e-12 of the sum of magnitudes", "at least one body; positive masses"]

vlib.main("C18", check)
