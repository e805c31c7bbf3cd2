import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

ENOSPC, EIO, EACCES = 28, 5, 13

def write_faults(tmp, ns, errs):
    """Every file operation of every kind of call refused once or from then on, whole or after a short write."""
    out = []
    for n in ns:
        f = 48 * n
        for scen in ("open", "append", "first", "second", "roll", "appended", "append-roll"):
            limit = f if "roll" in scen else 0
            for kind in ("-", ".dat", ".idx", ".col", ".mass"):
                if scen in ("open", "append") and kind in (".col", ".mass"):
                    continue
                for k in range(1, 8 if kind == "-" else 4):
                    for torn in (0, 1, 2):
                        for sticky in (0, 1):
                            if torn == 2 and sticky or scen in ("open", "append") and torn:
                                continue
                            err = errs[(len(out)) % len(errs)]
                            i = len(out)
                            b = 1000 + i * 20
                            w = lambda j: "write %d %d %s %d" % (b + j, j, 0.5 * j, b)
                            flt = "fault %d %d %d %s %d" % (k, torn, err, kind, sticky)
                            s = ["start " + tmp("w%d" % i), "data %d %d 5" % (b, n)]
                            if scen == "open":
                                s += [flt, "open a %d" % limit, "look a"]
                            elif scen == "append":
                                s += ["open a %d" % limit, w(1), w(2), "close", flt, "append a %d" % limit, "look a"]
                            else:
                                s += ["open a %d" % limit]
                                if scen != "first":
                                    s.append(w(1))
                                if scen.startswith("append"):
                                    s += [w(2), "close", "append a %d" % limit]
                                s += [flt, w(3), "look a", w(4), w(5), "look a", "close", "look a"]
                                if scen != "first":
                                    s += ["append a %d" % limit, w(6), w(7), "close", "look a"]
                            out.append(s)
    return out

def read_faults(tmp, ns):
    out = []
    for n in ns:
        i = 5000 + len(out)
        b = 900000 + i * 20
        nf = 40 if n < 10 else 4
        s = ["start " + tmp("r%d" % i), "data %d %d 5" % (b, n), "open a %d" % (48 * n * 3)]
        s += ["write %d %d %s %d" % (b + j, j * 1000003, 0.123456789012 * j, b) for j in range(1, nf)] + ["close"]
        for kind in ("-", ".dat", ".idx", ".col", ".mass"):
            for k in range(1, 12):
                for sticky in (0, 1):
                    s += ["fault %d 0 5 %s %d" % (k, kind, sticky), "faultyread a"]
        out.append(s)
    # a long index: refused in the middle of it
    s = ["start " + tmp("ri"), "data 99 1 5", "open a 0"] + ["write %d %d %s 99" % (j, j * 1000003, 0.123456789012 * j) for j in range(1, 1500)] + ["close"]
    for k in range(1, 8):
        s += ["fault %d 0 5 .idx %d" % (k, k % 2), "faultyread a"]
    out.append(s)
    return out

def other_faults(tmp):
    s = ["start " + tmp("o"), "data 1 3 5", "data 2 700 5", "data 3 3000 5"]
    for run in (1, 2, 3):
        for k in range(1, 12):
            for torn in (0, 1, 2):
                s += ["fault %d %d %d - %d" % (k, torn, ENOSPC, k % 2 if torn != 2 else 0), "save %d" % run]
        s.append("save %d" % run)
    for rows in (3, 500, 3000):
        for k in range(1, 9):
            s += ["fault %d 0 5 - %d" % (k, k % 2), "loadtable %d" % rows]
        s.append("loadtable %d" % rows)
    for kind in ("-", ".dat", ".idx", ".col", ".mass"):
        for k in range(1, 26 if kind == "-" else 9):
            for torn in (0, 1):
                s += ["fault %d %d %d %s %d" % (k, torn, ENOSPC, kind, k % 2), "run 9"]
    s.append("run 9")
    return [s]

def check(c):
    c.model("MCStreamFail")
    if not c.quick:
        c.model("MCStreamFail", "MCStreamFailBig", timeout=3000)
    exe = vlib.build_harness("iofail")
    scripts = write_faults(c.tmp, c.pick((2, 683), (1, 2, 341, 683, 1366)), (ENOSPC, EIO))
    scripts += read_faults(c.tmp, c.pick((2, 700), (1, 2, 341, 700, 1400)))
    scripts += other_faults(c.tmp)
    text = "\n".join("\n".join(s) for s in scripts) + "\n"
    def record():
        for s in scripts:
            d = s[0].split()[1]
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        return c.harness(exe, stdin=text, what="refused file operations", timeout=c.pick(200, 2000)).json()
    ev = record()
    n = sum(1 for e in ev if e.get("hits", 0) > 0)
    if n < 200:
        raise vlib.CheckError("only %d calls had an operation refused" % n)
    c.extra["calls_with_refused_operations"] = n
    c.sample(scripts[len(scripts) // 2])
    c.validate("StreamFailTrace", ev, what="refused file operations", ntraces=len(scripts), redo=record, timeout=850)

    # malformed indices, missing and short files
    cases = c.behaviours("IdxFile", c.pick("IdxFile", "IdxFileBig"))
    d = c.tmp("idx")
    os.makedirs(d)
    s = ["start " + d]
    for x in cases:
        s.append("idx %s %s %s %d %s" % (x["h"]["c"], x["h"]["b"], x["h"]["x"], len(x["ls"]), " ".join(x["ls"])))
    spoils = [(w, cut) for w in ("0.dat", "1.dat", ".mass", ".col", ".idx") for cut in (-1, 1, 8, 39, 120, 121, 239)
              if cut < {"0.dat": 480, "1.dat": 240, ".mass": 40, ".col": 80, ".idx": 0}[w]]
    s += ["spoil %s %d" % x for x in spoils]
    r = c.harness(exe, stdin="\n".join(s) + "\n", what="malformed stream files").json()
    got = [e for e in r if e["e"] == "idx"]
    assert len(got) == len(cases)
    for x, g in zip(cases, got):
        first_bad = x["ls"] and x["ls"][0] in ("negoff", "far", "nopart", "tail")
        if not x["ok"]:
            good = g["rc"] != 0
        elif g["rc"] != 0:
            good = first_bad
        else:
            good = g["frames"] == [i + 1 if f else -1 for i, f in enumerate(x["frames"])]
        if not good:
            raise vlib.Violation("index %s: expected %s, the reader gives %s" % (x, "rejection" if not x["ok"] else "frames", g), dict(case=x, got=g))
    for (w, cut), g in zip(spoils, [e for e in r if e["e"] == "spoil"]):
        lost = {"0.dat": [12] if 0 <= cut <= 240 else [11, 12], "1.dat": [13], ".mass": [11, 12, 13], ".col": [11, 12, 13], ".idx": [11, 12, 13]}[w]
        ok = g["rc"] != 0 if (w == ".idx") else (g["rc"] != 0 and 11 in lost) or g["frames"] == [-1 if f in lost else f for f in (11, 12, 13)]
        if not ok:
            raise vlib.Violation("stream file s%s %s: the reader gives %s" % (w, "missing" if cut < 0 else "short by %d bytes" % cut, g), dict(got=g))
    c.traces += len(cases) + len(spoils)
    c.events += len(cases) + len(spoils)
    c.assumptions += ["refusals are injected at open, read and write; a device that runs full stores a prefix and refuses the next write"]

vlib.main("C05", check, level="fault_enumeration")
