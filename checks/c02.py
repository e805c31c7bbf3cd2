import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from streamlib import *

def generated(beh, d, rng, base):
    s, runof, nextrun, fid = ["start " + d], {}, base, base * 100
    for i, o in enumerate(beh):
        if o["op"] == "open":
            nextrun += 1
            n = rng.choice([1, 2, 3, 5, 5, 342, 683])
            s.append("data %d %d %d" % (nextrun, n, rng.choice(BOXES)))
            runof[o["nm"]] = (nextrun, n)
            s.append("open %s %d" % (o["nm"], conc_limit(o["limit"], n, rng)))
        elif o["op"] == "append":
            s.append("append %s %d" % (o["nm"], conc_limit(o["limit"], runof[o["nm"]][1], rng)))
        elif o["op"] == "close":
            s.append("close")
        elif o["op"] == "write":
            fid += 1
            args = "%d %d %s %d" % (fid, rng.choice(STEPS), rng.choice(TIMES), runof[o["nm"]][0])
            if i + 1 < len(beh) and beh[i + 1]["op"] == "crash":
                s.append("crash %d %d %s" % (rng.randrange(1, 7), rng.randrange(2), args))
            else:
                s.append("write " + args)
        # "crash" is part of the write before it; "recover" happens after every crash
    return s + ["readback a", "readback b"]

def sweep(tmp, tier_ns):
    """Every file operation of every kind of write, cleanly before it and in the middle of it."""
    out = []
    for n in tier_ns:
        f = 48 * n
        for scen in ("first", "second", "roll", "appended", "append-roll"):
            limit = {"first": 0, "second": 0, "roll": f, "appended": 0, "append-roll": f}[scen]
            for k in range(1, 10):
                for torn in (0, 1):
                    i = len(out)
                    d = tmp("s%d" % i)
                    b = 100000 + i * 100
                    s = ["start " + d, "data %d %d 5" % (b, n), "open a %d" % limit]
                    w = lambda j: "%d %d %s %d" % (b + j, j, 0.5 * j, b)
                    if scen != "first":
                        s.append("write " + w(1))
                    if scen in ("appended", "append-roll"):
                        s += ["write " + w(2), "close", "append a %d" % limit]
                    s.append("crash %d %d %s" % (k, torn, w(3)))
                    if scen != "first":
                        s += ["append a %d" % limit, "write " + w(4), "readback a", "crash %d %d %s" % (max(1, k - 1), 1 - torn, w(5)),
                              "append a %d" % limit, "write " + w(6), "write " + w(7), "close", "readback a"]
                    out.append(s)
    return out

def check(c):
    c.model("MCStream")
    if not c.quick:
        c.model("MCStream", "MCStreamBig", timeout=3000)
    exe = vlib.build_harness("stream")
    nb = c.pick(60, 600)
    behs = c.behaviours("StreamGen", "StreamGenCrash", args=["-simulate", "num=%d" % (nb * 6), "-depth", "300", "-seed", str(c.seed + 200)], workers=1)
    behs = [b for b in distinct(behs, nb * 5, c.rng) if any(o["op"] == "crash" for o in b)][:nb]
    c.sample(behs[0])
    scripts = [generated(b, c.tmp("b%d" % i), c.rng, 10 * i) for i, b in enumerate(behs)]
    scripts += sweep(c.tmp, c.pick((2, 683), (1, 2, 5, 342, 683, 1366)))
    text = "\n".join("\n".join(s) for s in scripts) + "\n"
    def record():
        for s in scripts:
            d = s[0].split()[1]
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        return c.harness(exe, ["crash"], stdin=text, what="killed writer", timeout=c.pick(200, 2000)).json()
    ev = record()
    mid = sum(1 for i, e in enumerate(ev) if e["e"] == "crash" and ev[i - 1]["e"] == "begin")
    if mid < 20:
        raise vlib.CheckError("only %d crashes inside a write" % mid)
    c.extra["crashes_inside_a_write"] = mid
    c.extra["crashes"] = sum(1 for e in ev if e["e"] == "crash")
    c.validate("StreamTrace", ev, what="stream left by a killed writer", ntraces=len(scripts), redo=record)
    c.assumptions += ["the process dies (SIGKILL); what it had handed to the kernel before survives",
                      "a single write() of one index line is not torn by the death of the process"]

vlib.main("C02", check, level="fault_enumeration")
