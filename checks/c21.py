import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

def check(c):
    c.model("MCUniverse", c.pick("MCUniverse", "MCUniverseBig"))
    gen = c.behaviours("MCUniverse", "UniverseGen")
    rng = c.rng
    def side(): return rng.choice([1, 20, 63, 64, 65, 127, 128, 640, 6400, 6401, 100 * 64 * 10, rng.randrange(1, 10**6), rng.randrange(1, 10**7)])
    def request(): return "make %d %d %d %d 0" % (rng.choice([0, 1, 2, 3, 31, 62, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, rng.randrange(1, 700)]), side(), side(), side())
    cmds = []
    for h in rng.sample(gen, min(len(gen), c.pick(150, 1500))):
        cmds.append("new")
        for o in h:
            if o["op"] == "make": cmds.append("make %d %d %d %d 0" % tuple([o["q"]["n"]] + o["q"]["s"]))
            elif o["op"] == "clear": cmds.append("clear")
            else: cmds.append("other %d %s" % (o["k"], rng.choice(["add", "resize", "use"])))
    some = [request() for _ in range(c.pick(60, 1000))]
    some += ["make %d %d %d %d %d" % (rng.choice([1, 64, 65]), rng.randrange(1, 1000), rng.randrange(1, 1000), rng.randrange(1, 1000), rng.choice([-12, -18, -24, -30])) for _ in range(c.pick(20, 200))]
    some += ["make %d 640 640 640 0" % n for n in c.pick([1000, 4096], [1000, 4096, 5000, 16384, 20001])]
    for q in some + rng.sample(some, len(some) // 2):
        if rng.random() < .4: cmds.append("new")
        if rng.random() < .2: cmds.append("other %d %s" % (rng.randrange(1, 300), rng.choice(["add", "resize", "use"])))
        cmds.append(q)
    c.sample(dict(commands=cmds[:8]))
    exe = vlib.build_harness("universe")
    def record():
        js = c.harness(exe, stdin="\n".join(cmds) + "\n", what="generated universes", timeout=300, env=vlib.henv(1, TMPDIR=c.scratch)).json()
        if len(js) != len(cmds): raise vlib.CheckError("harness output incomplete")
        return js
    ev = record()
    c.extra["universes"] = sum(j["e"] == "make" for j in ev)
    c.validate("UniverseTrace", ev, what="generated universes", ntraces=sum(j["e"] == "new" for j in ev), redo=record)
    c.assumptions += ["positive box sides", "orbits and masses compared to nine digits"]

vlib.main("C21", check)
