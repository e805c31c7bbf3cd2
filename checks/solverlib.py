"""Helpers for the solver checks: trees for the harness, tableaux from recorded symbolic steps."""
from fractions import Fraction

def tree_file(prints, path):
    """Level sequences (from TLC) -> one line per tree with the indices of its children; returns counts per order."""
    index, lines, count = {}, [], {}
    def split(s):
        kids, cur = [], None
        for x in s[1:]:
            if x == s[0] + 1:
                cur = [x]; kids.append(cur)
            else:
                cur.append(x)
        return [tuple(v - s[0] for v in k) for k in kids]
    def norm(s):
        return tuple(v - s[0] + 1 for v in s)
    for s in sorted((tuple(p) for p in prints), key=lambda s: (len(s), s)):
        kids = [index[norm(k)] for k in split(s)]
        index[s] = len(lines)
        lines.append(" ".join(map(str, [len(kids)] + kids)))
        count[len(s)] = count.get(len(s), 0) + 1
    open(path, "w").write("\n".join(lines) + "\n")
    upto = {}
    tot = 0
    for n in sorted(count):
        tot += count[n]; upto[n] = tot
    return upto

S15 = 15 ** 0.5
def number(x, tol=4e-14):
    """x as [n, d, m, e] = n/d + m/e*sqrt(15), [0, 0, 0, 1] if it is no such number with small denominators."""
    def rational(den):
        f = Fraction(x).limit_denominator(den)
        return f if abs(float(f) - x) <= max(3e-16, tol * abs(x)) else None
    f = rational(20000)
    if f is not None:
        return [f.numerator, f.denominator, 0, 1]
    for q in (15, 30, 24, 10):
        for sg in (1, -1):
            r = x - sg * S15 / q
            f = Fraction(r).limit_denominator(360)
            if abs(float(f) - r) <= 1e-15:
                return [f.numerator, f.denominator, sg, q]
    f = rational(3000000)
    return [f.numerator, f.denominator, 0, 1] if f is not None else [0, 0, 0, 1]

def tableau(step, base):
    """Stages in order of evaluation, each the combination of earlier derivatives its argument adds to the base state.
    Only evaluations the new state or an error estimate depends on count."""
    dt = step["dt"]
    args = {str(e["id"]): e["arg"] for e in step["evals"]}
    need, todo = set(), [step["y"]] + step["norms"]
    while todo:
        for k in todo.pop():
            if k in args and k not in need:
                need.add(k); todo.append(args[k])
    ids = [str(e["id"]) for e in step["evals"] if str(e["id"]) in need]
    pos = {k: i for i, k in enumerate(ids)}
    def row(l, scale, b):
        if l.get(str(base), 0) != b and not (b == 1 and abs(l.get(str(base), 0) - 1) < 1e-15):
            return None
        r = [0.0] * len(ids)
        for k, v in l.items():
            if k == str(base):
                continue
            if k not in pos:
                return None
            r[pos[k]] = v / scale
        return r
    a = [row(args[k], dt, 1) for k in ids]
    # each stage is evaluated at the time its argument belongs to
    c = {str(e["id"]): e["c"] for e in step["evals"]}
    nodes = all(r is not None and abs(sum(r) - c[k]) <= 1e-9 * (1 + sum(abs(x) for x in r)) for k, r in zip(ids, a))
    return dict(nodes=nodes, a=a, b=row(step["y"], dt, 1), err=[row(n, 1.0, 0) for n in step["norms"]])
