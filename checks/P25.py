import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def close(g, w, s): return abs(g - w) <= 1e-12 * s
def nums(t): return [] if t == "%" else [float(x) for x in t.split(",")]
def judge(group):
    """group: all the outcomes the specification has for one matrix"""
    e0 = group[0]; n = len(e0["a"]); big = max(abs(v) for r in e0["a"] for v in r) or 1
    pow2 = lambda d: abs(d) & (abs(d) - 1) == 0
    exact = all(pow2(f[1]) for e in group for M in (e["L"], e["U"]) for r in M for f in r)
    def f(line):
        w = line.split(" ")
        if int(w[0]) != e0["ret"]: return "returns %s, the specification says %d" % (w[0], e0["ret"])
        if e0["ret"]: return None if nums(w[1]) == [v for r in e0["a"] for v in r] else "the matrix is changed"
        perm, par, M, det, x = [int(t) for t in w[1].split(",")], int(w[2]), nums(w[3]), float(w[4]), nums(w[5])
        if e0["sing"] and not exact: return None if abs(det) <= 1e-10 * big ** n * n ** n else "determinant %g of a singular matrix" % det
        why = "no row order allowed gives it"
        for e in group:
            if e["perm"] != perm: continue
            if e["par"] != par: why = "parity %d" % par; continue
            want = [e["L"][r][c] if c < r else e["U"][r][c] for r in range(n) for c in range(n)]
            want = [p / q for p, q in want]
            bad = [k for k in range(n * n) if not close(M[k], want[k] if want[k] or k % (n + 1) or not e["sing"] else 0.0, 50 * big)]
            if bad: why = "entry %d,%d of the factors is %g, not %g" % (bad[0] // n, bad[0] % n, M[bad[0]], want[bad[0]]); continue
            if not close(det, e["det"], big ** n * n ** n): why = "determinant %g, not %g" % (det, e["det"]); continue
            if not e["sing"] and any(not close(g, y, 1e3 * (big * n) ** n / abs(e["det"])) for g, y in zip(x, e["x"])): why = "solution %s, not %s" % (x, e["x"]); continue
            return None
        return "%s (rows %s)" % (why, perm)
    return f
def translate(groups):
    r = []
    for g in groups:
        e = g[0]; n = len(e["a"]); m = ",".join(str(v) for row in e["a"] for v in row); b = ",".join(map(str, e["rhs"]))
        for how in (0, 1): r.append(("lu %d %d %s %s" % (how, n, m, b), judge(g)))
    return r
def run(c):
    fams = [("matrices of one and two rows", "two", {}), ("matrices of three rows", "three", {}),
            ("random matrices up to five rows", "random", dict(consts={"Many": c.pick(4000, 60000)}, seed=c.seed, workers=1))]
    for name, cfg, kw in fams:
        r = c.tlc(name, "LU", cfg="LU_%s.cfg" % cfg, timeout=900, **kw)
        by = {}
        for e in r.items: by.setdefault(repr(e["a"]), []).append(e)
        g = list(by.values())
        c.replay(name, [g[i:i + 200] for i in range(0, len(g), 200)], translate, tmo=60, jobs=8)
main("P25", run)
