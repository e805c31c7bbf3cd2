import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from fractions import Fraction

LONG = [[2 * i for i in range(1, 13)], [2, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128], [2 ** i for i in range(12)]]
SEQS = [[1, 2, 3, 4, 5], [2, 4, 6, 8, 12], [2, 4, 6, 8, 10], [1, 2, 4, 8, 16], [6, 4, 3, 2, 1], [3, 5, 4, 7, 9], [2, 3, 4, 6, 8]]
P = (32749, 32719)

def check(c):
    c.model("MCExtrap")
    c.model("MCExtrap", "MCExtrapDeep")
    acts = [b["acts"] for b in c.behaviours("MCExtrap", "ExtrapGen")]
    c.rng.shuffle(acts)
    deep = [b["acts"] for b in c.behaviours("MCExtrap", "ExtrapGenLong")]      # long tables, asked after every result
    c.rng.shuffle(deep)
    deep.sort(key=lambda a: -max(a))
    exe = vlib.build_harness("solver")
    n, nd = c.pick((400, 40), (4000, 800))
    text, cases = [], []
    for i in range(n + nd):
        a = acts[i % len(acts)]
        if i >= n:
            a = [y for x in deep[i - n if i - n < nd // 2 else c.rng.randrange(len(deep))] for y in ((x, -2) if x > 1 else (x, -1))]
        t = "neville" if i % 2 else "berrut"
        order = c.rng.choice([1, 1, 2, 2, 3]) if t == "berrut" else c.rng.choice([1, 2, 2])
        cnt = c.rng.choice(SEQS if t == "neville" else [s for s in SEQS if s != [3, 5, 4, 7, 9]])   # the rational scheme needs ordered nodes
        if i >= n: cnt = c.rng.choice(LONG); order = min(order, 2)
        unit = 1 if i < n // 2 else c.rng.choice([1, 1000, 33000, 50000])       # only ratios of counts matter, but their powers get large
        while unit > 1 and (unit * max(cnt)) ** order > 2 ** 52: unit //= 10
        cnt = [x * unit for x in cnt]
        text.append("xnew %s %d %s" % (t, order, " ".join(map(str, cnt))))
        lev, sym, fills, log = 0, 1, [], []
        for x in a:
            if x > 0:
                fills = fills[:x - 1] + [sym]
                text.append("fill %d %d" % (x - 1, sym)); sym += 1; lev = x
                log.append(("fill", x, None))
            else:
                text.append("%s %d" % ("ext" if x == -1 else "est", lev - 1))
                log.append(("ext" if x == -1 else "est", lev, list(fills)))
                if x == -2:        # the estimate is compared with the extrapolation itself
                    text.append("ext %d" % (lev - 1)); log.append(("ext", lev, list(fills)))
        text.append("xend")
        cases.append((t, order, cnt, log))
    script = "\n".join(text) + "\n"
    c.sample(dict(type=cases[0][0], order=cases[0][1], counts=cases[0][2], calls=[x[:2] for x in cases[0][3]]))

    def digits(x):
        x, out = abs(x), []
        while x: out.insert(0, x % 32768); x //= 32768
        return out or [0]

    def lagrange(N):
        out = []
        for k in range(len(N)):
            q = Fraction(1)
            for j in range(len(N)):
                if j != k: q *= Fraction(N[k], N[k] - N[j])
            out.append(q)
        return out

    def guesses(t, order, cnt, m):
        # rationals that a number of the code may stand for; the specification decides whether it is the right one
        N = [Fraction(x) ** order for x in cnt[:m]]
        if t == "neville":
            w, u = lagrange(N), [Fraction(0)] + lagrange(N[1:])
        else:
            s = [x if k % 2 == 0 else -x for k, x in enumerate(N)]
            w = [x / sum(s) for x in s]
            u = [x / sum(s[:-1]) for x in s[:-1]] + [Fraction(0)] if m > 1 else [Fraction(0)]
        return w, [a - b for a, b in zip(w, u)], float(max(map(abs, w + u)))

    def weights(lin, fills, case, change=False):
        lin = dict(lin)
        out = []
        w, d, size = guesses(*case, len(fills))
        xs = [lin.pop(str(f), 0.0) for f in fills]
        if change:
            w = d if sum(abs(x - float(g)) - abs(x + float(g)) for x, g in zip(xs, d)) <= 0 else [-g for g in d]
        for x, q in zip(xs, w):
            if abs(float(q) - x) > 1e-12 * (1 + size):
                q = Fraction(x).limit_denominator(8000000)
                if abs(float(q) - x) > 1e-13 * (1 + abs(x)): q = Fraction(0)
            out.append(dict(neg=q < 0, n=digits(q.numerator), d=digits(q.denominator)))
        return out, not lin

    def record():
        js = c.harness(exe, stdin=script, what="extrapolation", timeout=200).json()
        it, evs = iter(js), []
        for t, order, cnt, log in cases:
            next(it)
            evs.append(dict(e="new", type=t, order=order, counts=cnt))
            out = [next(it) for _ in log]
            next(it)
            for i, (k, lev, fills) in enumerate(log):
                j = out[i]
                if j["e"] != k: raise vlib.CheckError("harness output incomplete")
                if k == "fill":
                    evs.append(dict(e="fill", level=lev, kept=j["kept"]))
                elif k == "ext":
                    w, only = weights(j["w"], fills, (t, order, cnt))
                    evs.append(dict(e="ext", w=w, only=only, type=t, order=order, counts=cnt))
                else:
                    v, only = weights(j["w"], fills, (t, order, cnt), True)
                    w, only2 = weights(out[i + 1]["w"], fills, (t, order, cnt))
                    evs.append(dict(e="est", v=v, w=w, only=only and only2, value=j["value"], type=t, order=order, counts=cnt))
        return evs
    c.validate("ExtrapTrace", record(), what="extrapolation", ntraces=len(cases), redo=record)
    c.assumptions += ["results are identified as linear combinations on a symbolic engine; weights are compared as rationals modulo two primes",
                      "extrapolation is asked for at the level entered last"]

vlib.main("C10", check)
