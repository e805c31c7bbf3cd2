import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from playerlib import *

def check(c):
    c.model("MCPlayer", c.pick("MCPlayer", "MCPlayerBig"))
    rng = c.rng
    cmds = []
    for k in range(c.pick(120, 1200)):
        avi = k % 4 == 0
        frames = rng.choice([1, 2, 3, 7, 13, 16] if avi else [1, 2, 3, 9, 17, 40, 120])
        cmds.append("open %d %d %d" % (frames, rng.choice([1, 3]), rng.choice([100, 1000, 10**9])))
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < .6: cmds.append(rng.choice(["move %d" % rng.randrange(frames), "start", "forward", "key right"]))
            if rng.random() < .4: cmds.append("elapse %d" % rng.randrange(1, 4000))
            if rng.random() < .3: cmds.append("pause")
            how = "avi" if avi else rng.choice(["png"] * 6 + ["none", "bad", "noimage"])
            during = sorted(rng.randrange(frames) for _ in range(rng.choice([0, 0, 1, 3, frames, 2 * frames])))
            doing = [rng.choice(["elapse:%d" % rng.choice([1, 16, 700, rng.randrange(1, 6000)])] * 4 + ["move:%d" % rng.randrange(frames), rng.choice(["start", "pause", "stop", "forward", "backward"]) + ":0"]) for _ in during]
            cmds.append("record %s %d %s" % (how, rng.choice([-1, -1, 0, rng.randrange(frames)]), " ".join("%d:%s" % x for x in zip(during, doing))))
            cmds.append(rng.choice(["elapse 100", "key right", "start"]))
    c.sample(dict(commands=cmds[:12]))
    exe = build()
    def record():
        return c.harness(exe, [c.scratch], stdin="\n".join(cmds) + "\n", what="recording", timeout=700).json()
    ev = record()
    c.extra["recordings"] = sum(j["e"] == "record" for j in ev)
    c.validate("PlayerTrace", ev, what="recording", ntraces=c.extra["recordings"], redo=record)
    c.assumptions += ["drawing (OpenGL) is replaced by an image that tells which frame the view holds", "the disk takes the images"]

vlib.main("C22", check)
