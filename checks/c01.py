import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from streamlib import *

def script(beh, d, rng, base):
    """One behaviour as harness operations; every stream run gets a body count, masses and box of its own."""
    s = ["start " + d]
    os.makedirs(d, exist_ok=True)
    run, runof, nextrun, ndat = {}, {}, base, {}
    fid = base * 100
    pend = {}
    for o in beh:
        if o["op"] == "open":
            nextrun += 1
            n, box = rng.choice(SIZES), rng.choice(BOXES)
            if n > 1 and rng.random() < 0.7:
                n = rng.choice([1, 2, 3, 5])
            s.append("data %d %d %d" % (nextrun, n, box))
            runof[o["nm"]] = (nextrun, n)
            if rng.random() < 0.4:
                s.append("fresh")
            s.append("open %s %d" % (o["nm"], conc_limit(o["limit"], n, rng)))
        elif o["op"] == "append":
            if rng.random() < 0.4:
                s.append("fresh")
            s.append("append %s %d" % (o["nm"], conc_limit(o["limit"], runof[o["nm"]][1], rng)))
        elif o["op"] == "close":
            s.append("close")
        else:
            fid += 1
            s.append("write %d %d %s %d" % (fid, rng.choice(STEPS), rng.choice(TIMES), runof[o["nm"]][0]))
            s.append("readback %s" % o["nm"])
    s += ["readback a", "readback b", "fresh", "readback a", "readback b"]
    return s

def large(d, rng):
    """Offsets beyond 4 GiB: a sparse part, continued."""
    os.makedirs(d, exist_ok=True)
    gib5 = 5 * 1024 ** 3
    return ["start " + d, "data 9001 3 10", "open a 0", "write 900101 1 0.5 9001", "fresh", "hole %d 0" % gib5,
            "append a 0", "write 900102 2 1.5 9001", "write 900103 3 2.5 9001", "close", "readback a",
            "append a %d" % (6 * 1024 ** 3), "write 900104 4 3.5 9001", "close", "readback a",
            "append a %d" % gib5, "write 900105 5 4.5 9001", "write 900106 6 4.75 9001", "readback a",
            "open b %d" % (3 * 1024 ** 3), "write 900107 7 0 9001", "fresh", "hole %d 0" % (3 * 1024 ** 3 - 288), "append b %d" % (3 * 1024 ** 3),
            "write 900108 8 1 9001", "write 900109 9 2 9001", "write 900110 10 3 9001", "readback b", "fresh", "readback b"]

def check(c):
    c.model("MCStream")
    if not c.quick:
        c.model("MCStream", "MCStreamBig", timeout=3000)
    exe = vlib.build_harness("stream")
    nb = c.pick(120, 900)
    behs = c.behaviours("StreamGen", args=["-simulate", "num=%d" % (nb * 2), "-depth", "300", "-seed", str(c.seed + 100)], workers=1)
    behs = distinct(behs, nb, c.rng)
    c.sample(behs[0])
    scripts = [script(b, c.tmp("b%d" % i), c.rng, 10 * i) for i, b in enumerate(behs)]
    scripts.append(large(c.tmp("large"), c.rng))
    text = "\n".join("\n".join(s) for s in scripts) + "\n"
    import shutil
    def record():
        for s in scripts:
            d = s[0].split()[1]
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        return c.harness(exe, stdin=text, what="stream round trip", timeout=c.pick(200, 2000)).json()
    c.validate("StreamTrace", record(), what="stream writing and reading back", ntraces=len(scripts), redo=record)
    c.assumptions += ["whole-number box sizes", "all frames of one stream have the same number of bodies",
                      "bodies, steps and times drawn from a fixed pool incl. NaN, infinities, denormals, steps over 2^32, offsets over 4 GiB"]

vlib.main("C01", check)
