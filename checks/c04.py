import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from streamlib import distinct

def check(c):
    c.model("MCReader")
    exe = vlib.build_harness("reader")
    nb = c.pick(150, 3000)
    behs = c.behaviours("ReaderGen", args=["-simulate", "num=%d" % nb, "-depth", "100", "-seed", str(c.seed + 400)], workers=1)
    behs = distinct(behs, nb, c.rng)
    c.sample(behs[0])
    def line(o):
        return " ".join([o["op"]] + [str(o[k]) for k in ("nm", "k", "d") if k in o])
    text = "\n".join("start\n" + "\n".join(line(o) for o in b) for b in behs) + "\n"
    import shutil
    def record():
        d = c.tmp("streams")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return c.harness(exe, [d], stdin=text, what="stream reader").json()
    c.validate("ReaderTrace", record(), what="stream reader", ntraces=len(behs), redo=record)

vlib.main("C04", check)
