#!/usr/bin/env python3
"""Mutation campaign: small changes of the sources, made in a scratch worktree, against the checks of the properties they touch.
   mutate.py <worktree> <builddir> <log> <count> [seed] [file-regex]
Each mutant is run against the checks mapped to its file until one reports a violation; survivors are for a human to judge."""
import os, random, re, subprocess, sys, time

MAP = [(r"data_stream_reader", "C04 C01 C05 C02 C03"), (r"data_stream\.cpp", "C01 C02 C05"), (r"nbody_data\.cpp", "C16 C18 C21 C12"), (r"arg_parser", "C17"), (r"nbody_engines|nbody_solvers\.", "C17"),
       (r"engine_opencl", "C11 C12 C15 C19 C13 C14"), (r"engine_simple_bh|space_", "C13 C14 C23"), (r"engine_ah", "C14 C12 C23"), (r"engine_block", "C12 C11 C23"), (r"engine_openmp|engine_simple\.|nbody_engine\.", "C11 C12 C19 C17 C23"),
       (r"solver_adams", "C09"), (r"extrapolator", "C10"), (r"bulirsch|midpoint_stetter", "C10 C07 C03"), (r"solver_rk_butcher", "C08 C07"), (r"nbody_solver\.cpp", "C06 C03 C18"), (r"nbody_solver_", "C07 C08"), (r"butcher_table", "C07"),
       (r"compressor", "C22"), (r"wgt_nbody_player", "C20 C22"), (r"main/main", "C17 C03 C05")]
SKIP = re.compile(r"cuda|stormer|wgt_nbody_view|feagin|player/main|memsupp")


def mutants(path):
    out = []
    lines = open(path).read().split("\n")
    code, depth = False, 0
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "Q_")) or "qDebug" in s or "print_info" in s: continue
        if s.startswith("//!"): continue
        def put(a, b, pat=None):
            for m in re.finditer(pat or re.escape(a), l):
                out.append((i, l[:m.start()] + b + l[m.end():]))
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" += ", " -= "), (" -= ", " += "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), ("std::min", "std::max"), ("std::max", "std::min")):
            if a == " * " and re.match(r"^\s*(const\s+)?\w+\s*\*", l): continue
            put(a, b)
        for m in re.finditer(r"(?<![\w.\"%])(\d+)(?![\w.\"])", l):
            if '"' in l: continue
            out.append((i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
        if s.endswith(";") and not re.match(r"^(return|break|continue|const|static|using|typedef|auto|case|default|else|size_t|int|nb\w+_t|double|Q\w+|std::|extern|delete|\})", s) and "(" in s or re.match(r"^[\w>\-.\[\]]+ (=|\+=|-=) .*;$", s) or re.match(r"^(\+\+|--)", s):
            out.append((i, re.match(r"^\s*", l).group(0) + ";"))
        if re.match(r"^if\(.*\)$", s): out.append((i, l.replace("if(", "if(!(", 1)[:-1] + "))")) ; out.append((i, re.match(r"^\s*", l).group(0) + "if(false)"))
        if re.match(r"^if\(.*\)$", s): out.append((i, re.match(r"^\s*", l).group(0) + "if(true)"))
    return lines, out


def main():
    tree, build, log, count = sys.argv[1:5]
    rng = random.Random(sys.argv[5] if len(sys.argv) > 5 else "1")
    want = re.compile(sys.argv[6] if len(sys.argv) > 6 else ".")
    files = []
    for d in ("nbody", "player", "test/main"):
        for f in sorted(os.listdir(os.path.join(tree, d))):
            p = os.path.join(d, f)
            if re.search(r"\.(cpp|cl|h)$", f) and not SKIP.search(p) and want.search(p) and any(re.search(r, p) for r, c in MAP): files.append(p)
    env = dict(os.environ, VERIF_REPO=tree, VERIF_BUILD=build, VERIF_INCREMENTAL="1")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for k in range(int(count)):
        f = rng.choice(files)
        p = os.path.join(tree, f)
        text = open(p).read()
        lines, ms = mutants(p)
        if not ms: continue
        i, new = rng.choice(ms)
        res, t = "SURVIVED", time.time()
        try:
            open(p, "w").write("\n".join(lines[:i] + [new] + lines[i + 1:]))
            for c in next(c for r, c in MAP if re.search(r, f)).split():
                try: r = subprocess.run(["bash", os.path.join(here, "run.sh"), c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True, errors="replace")
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + c; break
                if r.returncode == 1: res = "caught " + c; break
                if r.returncode != 0:
                    o = r.stdout
                    res = ("nocompile" if re.search(r"error:|make.*Error", o) else "ERROR " + c + " " + o[-600:].replace("\n", " | "))
                    break
        finally:
            open(p, "w").write(text)
        with open(log, "a") as g: g.write("%s | %s:%d | %s => %s | %.0fs\n" % (res, f, i + 1, lines[i].strip(), new.strip(), time.time() - t))

main()
