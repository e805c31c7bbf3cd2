"""Shared by the engine checks: scripts for harness/engine.cpp and their events."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

OCL = "/usr/bin/oclgrind"


def text(o):
    l = lambda x: "%d %s" % (len(x), " ".join(map(str, x)))
    op = o["op"]
    a = {"copy": "%d %d" % (o["d"], o["s"]), "fill": "%d %d" % (o["d"], o["c"]), "write": "%d %d" % (o["d"], o["c"]),
         "fmaddi": "%d %d %d" % (o["d"], o["s"], o["c"]), "fmadd": "%d %d %d %d" % (o["d"], o["s"], o["t"], o["c"]),
         "fmaddni": "%d %s %s" % (o["d"], l(o["list"]), l(o["co"])), "fmaddn": "%d %d %s %s" % (o["d"], o["s"], l(o["list"]), l(o["co"])),
         "corr": "%d %d %s %s" % (o["d"], o["s"], l(o["list"]), l(o["co"])), "max": "%d" % o["d"], "read": "%d" % o["d"], "clamp": "%d %d" % (o["d"], o["c"]), "force": "%d %d" % (o["d"], o["s"])}[op]
    return "op %s %s" % (op, a)


def call(op, d=0, s=0, t=0, list=(), co=(), c=0):
    return dict(op=op, d=d, s=s, t=t, list=[*list], co=[*co], c=c)


def script(bodies, engine, nbuf, ops, tail=(), mass=100, scales=None):
    """bodies, engine parameters, number of pattern buffers (one more for corrections), calls, and closing commands"""
    r = ["data %d %g" % (bodies, mass), "engine " + engine]
    r += ["buf %d %d" % (i, i) for i in range(2, nbuf + 1)] + ["buf %d 0" % (nbuf + 1)]
    for o in ops: r += (["scale %d" % scales()] if scales else []) + [text(o)]
    if scales: r.append("scale 0")
    return r + list(tail) + ["drop"]


def events(js, scripts):
    """harness output -> trace events; the k-th op event gets its call"""
    ops = [o for s in scripts for o in s]
    it = iter(ops)
    out = []
    for j in js:
        if j["e"] == "op" or (j["e"] == "threw" and j["cmd"].startswith("op")):
            j["o"] = next(it, None)
        out.append(j)
    return out


def bounded(rng, pool, n, nbuf, limit=2000000):
    """a sequence of n calls whose coefficients stay small enough to be identified exactly"""
    size = {i: 1 for i in range(1, nbuf + 2)}
    out = []
    while len(out) < n:
        o = rng.choice(pool)
        d, ok = o["d"], lambda b: b in size
        g = lambda b: size.get(b, 0)
        new = None
        if o["op"] in ("copy",): new = g(o["s"])
        elif o["op"] in ("fill", "write"): new = abs(o["c"]) + 1
        elif o["op"] == "fmaddi": new = g(d) + abs(o["c"]) * g(o["s"])
        elif o["op"] == "fmadd": new = g(o["s"]) + abs(o["c"]) * g(o["t"])
        elif o["op"] in ("fmaddni", "corr"): new = g(d) + sum(abs(c) * g(b) for b, c in zip(o["list"], o["co"]))
        elif o["op"] == "fmaddn": new = g(o["s"]) + sum(abs(c) * g(b) for b, c in zip(o["list"], o["co"]))
        elif o["op"] == "force": new = 1
        if new is not None and new > limit:
            continue
        if new is not None and ok(d): size[d] = max(1, new)
        out.append(o)
    return out


def generic_forces(ops, nbuf, most):
    """Drops derivative computations whose result could not be told apart from known vectors: states without any pattern, and
    states that differ from an earlier one only by a factor or by a shift of everything.  Keeps at most so many different ones."""
    buf = {b: ({b: 1} if b <= nbuf else {}) for b in range(1, nbuf + 2)}
    args, out = [], []
    clean = lambda v: {k: x for k, x in v.items() if x}
    def plus(u, v, c):
        r = dict(u)
        for k, x in v.items(): r[k] = r.get(k, 0) + c * x
        return clean(r)
    def core(v):
        t = sorted((str(k), x) for k, x in v.items() if k != 5)
        g = math.gcd(*[x for _, x in t]) if t else 1
        if t and t[0][1] < 0: g = -g
        return tuple((k, x // g) for k, x in t)
    for o in ops:
        if o["op"] == "corr" and args: continue        # corrections stay zero with whole numbers only
        d, s, t = o["d"], o["s"], o["t"]
        ok = lambda *b: all(x in buf for x in b)
        lists = 0 < len(o["co"]) <= len(o["list"])
        if o["op"] == "force" and ok(d, s):
            v = buf[s]
            if v in args: k = args.index(v)
            else:
                if not core(v) or len(args) >= most or any(core(a) == core(v) for a in args): continue
                args.append(dict(v))
                k = len(args) - 1
            buf[d] = {"f%d" % k: 1}
        elif o["op"] == "copy" and ok(d, s): buf[d] = dict(buf[s])
        elif o["op"] == "fill" and ok(d): buf[d] = clean({5: o["c"]})
        elif o["op"] == "write" and ok(d): buf[d] = {o["c"]: 1}
        elif o["op"] == "fmaddi" and ok(d, s): buf[d] = plus(buf[d], buf[s], o["c"])
        elif o["op"] == "fmadd" and ok(d, s, t): buf[d] = plus(buf[s], buf[t], o["c"])
        elif o["op"] in ("fmaddni", "fmaddn", "corr") and ok(d) and lists and (o["op"] != "corr" or ok(s)):
            base = buf[d] if o["op"] != "fmaddn" else {} if s == 0 else buf[s]
            for b, c in zip(o["list"], o["co"]): base = plus(base, buf[b], c)
            buf[d] = base
        out.append(o)
    return out
