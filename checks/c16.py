import os, sys, struct, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

ZERO, BAD, MARK, MISSING = 1, 9001, 9002, 9003
G = 6.67259e-11                                     # the gravity constant the masses are scaled by
FACTOR = {"g1": 1.0, "si": G, "adk": G * 86400.0 * 86400.0 / (149597870700.0 ** 3)}
bits = lambda v: struct.pack(">d", v).hex()
val = lambda h: struct.unpack(">d", bytes.fromhex(h))[0]
WRONG = ["abc", "1.2.3", "1,5", "--1", "1e", "12x", "x7", "1/2", "1e5e", "+", "-", ".", "1_0", "#", "1;2", "nul", "1.5f", "0x", "(1)"]

class Texts:
    """The numbers of one file: word -> (text, value)."""
    def __init__(self, rng): self.rng, self.of, self.seen = rng, {}, {}
    def word(self, w):
        if w not in self.of:
            while True:
                r = self.rng
                k = r.randrange(12)
                if k == 0: t = r.choice(["0", "0.0", "+0.0", "0e5", "0.000"])
                elif k < 4: t = str(r.randrange(-10**r.randrange(1, 9), 10**r.randrange(1, 9)))
                elif k < 6: t = "%+.16e" % (r.uniform(-1, 1) * 10 ** r.randrange(-12, 13))
                elif k < 7: t = repr(r.uniform(-1, 1) * 10 ** r.randrange(-300, 300))
                elif k < 8: t = ("%g" % (r.uniform(-9, 9) * 10 ** r.randrange(-5, 6))).replace("e", r.choice("eE"))
                elif k < 9: t = "%.3f" % r.uniform(-1000, 1000)
                else: t = repr(r.uniform(-100, 100))
                v = float(t)
                if math.copysign(1, v) < 0 and v == 0: continue
                if v != 0 and bits(v) in self.seen: continue
                break
            self.seen[bits(v)] = True
            self.of[w] = (t, v)
        return self.of[w][0]
    def ident(self, w): return ZERO if self.of[w][1] == 0 else w
    def line(self, ws): return [w if w in (BAD, MARK, MISSING) else self.ident(w) for w in ws]

def check(c):
    c.model("MCTables")
    if not c.quick: c.model("MCTables", "MCTablesBig", timeout=1200)
    gen = c.behaviours("MCTables", "TablesGen")
    rng = c.rng
    tabs = [g for g in gen if g["f"]["kind"] == "table" and len(g["f"]["lines"]) == 1]
    goodl = [g["f"]["lines"][0] for g in tabs if g["ok"] and any(w not in (MARK,) for w in g["f"]["lines"][0][:1])]
    badl = [g["f"]["lines"][0] for g in tabs if not g["ok"]]
    emptyl = [g["f"]["lines"][0] for g in tabs if g["ok"] and (not g["f"]["lines"][0] or g["f"]["lines"][0][0] == MARK)]
    zenos = [g for g in gen if g["f"]["kind"] == "zeno"]
    files = []                                          # (kind, abstract file with unique words, rendered later)
    def renum(lines):
        k = [100]
        def n(w):
            if w in (BAD, MARK): return w
            k[0] += 1
            return k[0] + (10000 if k[0] >= 9000 else 0)
        return [[n(w) for w in l] for l in lines]
    for g in c.pick(tabs, tabs * 4): files.append(dict(kind="table", lines=renum(g["f"]["lines"])))
    for i in range(c.pick(600, 6000)):
        k = rng.choice([0, 1, 2, 3, 5, 9, 20])
        l = [rng.choice(goodl if rng.random() < .8 else emptyl) for j in range(k)]
        if rng.random() < .3: l.insert(rng.randrange(len(l) + 1), rng.choice(badl))
        files.append(dict(kind="table", lines=renum(l)))
    for i in range(c.pick(4, 30)):                      # more than one buffer of text
        l = [rng.choice(goodl if rng.random() < .95 else emptyl) for j in range(rng.choice([150, 300, 500]))]
        if i % 2: l[rng.randrange(len(l))] = rng.choice(badl)
        files.append(dict(kind="table", lines=renum(l)))
    oks, nos = [g for g in zenos if g["ok"]], [g for g in zenos if not g["ok"]]
    for g in oks + rng.sample(nos, min(len(nos), c.pick(900, len(nos)))):
        files.append(dict(kind="zeno", head=dict(g["f"]["head"]), lines=renum(g["f"]["lines"])))
    for i in range(c.pick(4, 30)):
        n = rng.choice([7, 40, 150, 400])
        l = [[5]] * n + [[5, 5, 5]] * (2 * n)
        if i % 2:
            j = rng.randrange(3 * n)
            l[j] = rng.choice([[BAD]] if j < n else [[5, BAD, 5], [5, 5], [5, 5, 5, 5], [BAD, 5, 5], [5, 5, BAD]])
        files.append(dict(kind="zeno", head=dict(count=n, dim=3, time=True), lines=renum(l)))
    for big in ([10**6, 10**12, 2**63, 2**64 - 1] * c.pick(1, 3)):      # a count the file cannot hold
        files.append(dict(kind="zeno", head=dict(count=big, dim=3, time=True), lines=renum([[5], [5, 5, 5], [5, 5, 5]])))
    rng.shuffle(files)
    def comment(): return rng.choice(["//", "// ", "//x", "// 1 2 3 4 5 6 7 8", "///", "// http://x", "//\xa7".encode("latin1").decode("latin1"), "//  a // b"])
    def render(f):
        t = Texts(rng)
        nl = rng.choice(["\n", "\n", "\r\n"])
        sp = lambda: " " * rng.choice([1, 1, 1, 2, 5])
        out = []
        if f["kind"] == "zeno":
            h = f["head"]
            pad = lambda: rng.choice(["", " ", "  "])
            out += [pad() + (rng.choice(["", "x", "1.5", "-1", "3 4", "1e"]) if h["count"] == MISSING else str(h["count"])) + pad(),
                    pad() + (rng.choice(["", "x", "-3", "3.0", "3d"]) if h["dim"] == MISSING else str(h["dim"])) + pad(),
                    "  0.00000000000000E+00" if h["time"] else ""]
        for l in f["lines"]:
            s = rng.choice(["", "", " ", "   "])
            for i, w in enumerate(l):
                # the sign ends what counts: the words behind it are part of the comment
                if w == MARK: s += rng.choice(["", " "]) + comment()
                elif w == BAD: s += (sp() if i else "") + rng.choice(WRONG)
                else: s += (sp() if i else "") + t.word(w)
            out.append(s + rng.choice(["", "", " ", "  "]))
        text = nl.join(out) + (nl if out and (rng.random() < .8 or not out[-1].strip()) else "")
        return text, t
    rounds, cmds, meta = [], [], []
    names = {"table": ["g1", "si", "adk"], "zeno": ["zeno"]}
    vary = lambda s: rng.choice([s, s.upper(), s.capitalize(), "".join(rng.choice([x, x.upper()]) for x in s)])
    for i, f in enumerate(files):
        text, t = render(f)
        fn = c.tmp("f%d" % i)
        with open(fn, "w", encoding="utf-8", newline="") as o: o.write(text)
        if rng.random() < .2: cmds.append("fresh")
        k = rng.random()
        if k < .4:
            if f["kind"] == "table":
                u = rng.randrange(3)
                by, name = "table", ["g1", "si", "adk"][u]
                cmds.append("load %s %d" % (fn, u))
            else:
                by, name = "zeno", "zeno"
                cmds.append("zeno " + fn)
        else:
            by = "initial"
            name = rng.choice(names[f["kind"]]) if rng.random() < .93 else rng.choice(["@", "zenoo", "zen", "g", "g2", "sii", "ad", "adkg", "unknown", "0", "g1si"])
            cmds.append("initial %s %s" % (fn, vary(name)))
            if name == "@": name = ""
        meta.append((f, t, by, name, text))
        for n in range(rng.random() < .35):
            n = rng.choice([0, 1, 2, 3, 17, 200])
            vals = []
            for _ in range(8 * n):
                q = rng.randrange(10)
                v = rng.choice([0.0, -0.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1/3, 1e22, 1e23, 9007199254740993.0, -2.5e-310, 2**-1022 - 2**-1074]) if q == 0 else \
                    val("%016x" % rng.getrandbits(64)) if q < 6 else rng.uniform(-1000, 1000)
                vals.append(v if math.isfinite(v) else 1.5)
            cmds.append("round %s %d %s" % (c.tmp("r%d" % rng.randrange(4)), n, " ".join(map(bits, vals))))
            meta.append(None)
    for fn, can in [("/dev/full", False), (c.tmp("no/such/dir/f"), False), (c.tmp("ok"), True)]:
        for n in (1, 3, 600):
            cmds.append("save %s %d" % (fn, n))
            meta.append(("save", can))
    def known(t):
        d = {bits(v): w for w, (_, v) in t.of.items() if v != 0}
        d[bits(0.0)] = ZERO
        return d
    def decode(js):
        if len(js) != len(meta): raise vlib.CheckError("harness output incomplete")
        ev = []
        for j, mt in zip(js, meta):
            if j["e"] == "round":
                ids = {}
                num = lambda b: [[ids.setdefault("0" * 16 if h == "8" + "0" * 15 else h, len(ids) + 1) for h in x] for x in b]
                j["before"], j["after"] = num(j["before"]), num(j["after"])
                if j["before"] == j["after"]: j = dict(j, before=len(j["before"]), after=len(j["after"])) if len(j["before"]) > 20 else j
            elif j["e"] == "save": j["can"] = mt[1]
            else:
                f, t, by, name, text = mt
                d = known(t)
                unit = "g1"
                # the unit system whose factor explains the masses; the one the name calls for comes first
                def mass(h, u):
                    v = val(h)
                    if v == 0: return ZERO
                    if u == "g1": return d.get(h, 0)
                    for w, (_, x) in t.of.items():
                        if x != 0 and abs(x * FACTOR[u] - v) <= 1e-13 * abs(v) + 5e-324: return w
                    return 0
                want = {"si": "si", "adk": "adk"}.get(name, "g1")
                out = []
                for b in j["bodies"]:
                    near = mass(b[6], want)
                    out.append([d.get(h, 0) for h in b[:6]] + [near] + [d.get(b[7], 0)])
                fl = dict(kind=f["kind"], lines=[t.line(l) for l in f["lines"]])
                if f["kind"] == "zeno":
                    fl["head"] = dict(f["head"])
                    if fl["head"]["count"] > 2**30: fl["head"]["count"] = 2**29      # (TLC's integers)
                j.update(f=fl, by=by, name=name, bodies=out, unit=want)
                if len(text) < 400: j["text"] = text
            ev.append(j)
        return ev
    exe = vlib.build_harness("tables", "asan")
    def run(): return decode(c.harness(exe, stdin="\n".join(cmds) + "\n", what="body files", timeout=600, env=vlib.henv(1)).json())
    ev = run()
    c.extra["files"] = len(files)
    c.extra["accepted"] = sum(j["e"] == "load" and j["ok"] for j in ev)
    c.sample(dict(commands=cmds[:3], text=meta[0][4]))
    c.validate("TablesTrace", ev, what="body files", ntraces=len(ev), redo=run, timeout=1200)
    c.assumptions += ["columns separated by spaces; finite decimal numbers (nan, inf, hexadecimal and out-of-range forms not considered)", "the radius is observed through what save writes"]

vlib.main("C16", check)
