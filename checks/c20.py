import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from playerlib import *

def check(c):
    c.model("MCPlayer", c.pick("MCPlayer", "MCPlayerBig"))
    gen = c.behaviours("MCPlayer", "PlayerGen")
    rng = c.rng
    cmds = []
    def opened(frames): cmds.append("open %d %d %d" % (frames, rng.choice([1, 2, 5]), rng.choice([100, 1000, 10**9])))
    for h in rng.sample(gen, c.pick(400, 4000)):
        opened(h["last"] + 1)
        for o in h["ops"]:
            if o["op"] == "move": cmds.append("%s %d" % (rng.choice(["move", "drag"]), o["k"]))
            elif o["op"] == "key": cmds.append("key " + o["k"])
            elif o["op"] == "elapse": cmds.append("elapse %d" % o["d"])
            else: cmds.append(o["op"])
            if rng.random() < .1: cmds.append("set %d" % rng.randrange(6))
    # long sessions
    for _ in range(c.pick(40, 400)):
        frames = rng.choice([1, 2, 3, 7, 30, 101, 257])
        opened(frames)
        for _ in range(rng.choice([10, 40, 80])):
            r = rng.random()
            if r < .35: cmds.append("elapse %d" % rng.choice([1, 16, 40, 333, 1000, 4000, 5000, rng.randrange(1, 5001)]))
            elif r < .75: cmds.append(rng.choice(["start", "start", "start", "pause", "pause", "stop", "forward", "backward"]))
            elif r < .9: cmds.append(rng.choice(["move", "drag"]) + " %d" % rng.randrange(0, frames))
            elif r < .95: cmds.append("key " + rng.choice(["right", "left", "home", "end"]))
            else: cmds.append("set %d" % rng.randrange(6))
    for frames in [3, 5001]:                            # every millisecond
        opened(frames)
        for op in ["start", "elapse 1", "elapse 2", "elapse 14", "elapse 4000", "pause", "elapse 700", "start", "elapse 982", "elapse 1", "elapse 1"]: cmds.append(op)
    c.sample(dict(commands=cmds[:12]))
    exe = build()
    def record():
        js = c.harness(exe, [c.scratch], stdin="\n".join(cmds) + "\n", what="player", timeout=600).json()
        if len(js) != len(cmds): raise vlib.CheckError("harness output incomplete")
        return js
    ev = record()
    c.validate("PlayerTrace", ev, what="player", ntraces=sum(j.get("op") == "open" for j in ev), redo=record)
    c.assumptions += ["the stream can be read and has at least one frame", "what the view draws is what its data object holds (there is no OpenGL here)", "playing time is given to the animation by a driver of the harness"]

vlib.main("C20", check)
