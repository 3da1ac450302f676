import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
BOX = [(2, 2, 2), (3, 2, 1)]
N = [a * b * c for a, b, c in BOX]
V = ["u", "w", "gx", "gy", "gz", "zz"]
M = 2**64 - 1
def val(k, v, b, i):
    """the same as in harness/drv_num.c"""
    x = (k * 7919 + v * 104729 + b * 1299709 + i * 15485863 + 12345) & M
    x ^= x >> 13; x = x * 0x9E3779B97F4A7C15 & M; x ^= x >> 29; x = x * 0xBF58476D1CE4E5B9 & M; x ^= x >> 32
    return (x % 4194304 - 2097152) / 1024.0
_c = {}
def cval(k, v, b, i):
    t = (k, v, b, i)
    if t not in _c: _c[t] = val(*t)
    return _c[t]
def data(sums, dts):
    """sums: class -> variable -> formal sum; the values in the order of the driver, and their sizes"""
    r = []
    for j in range(len(sums[2])):
        for b in range(len(BOX)):
            for i in range(N[b]):
                if not sums[i % 3]: r.append((0.0, math.inf)); continue
                t = [x[3] / x[4] * (dts[x[0] - 1] if x[0] else 1) * cval(x[1], V.index(x[2]), b, i) for x in sums[i % 3][j]]
                r.append((math.fsum(t), math.fsum(map(abs, t))))
    return r
def cmp(what, got, want):
    if len(got) != len(want): return "%s: %d numbers instead of %d" % (what, len(got), len(want))
    for k, (g, (w, s)) in enumerate(zip(got, want)):
        if g == "~": return "%s: no storage" % what
        if s < math.inf and not abs(float(g) - w) <= 1e-12 * s + 1e-13: return "%s: number %d is %s, the specification says %.17g" % (what, k, g, w)
def judge(e, dts, same):
    c = e["c"]
    def f(line):
        parts = line.split(";")
        ev = parts[1:-4] if len(parts) > 4 else []
        if len(ev) != len(e["ev"]): return "%d calls of the user's functions, the specification says %d" % (len(ev), len(e["ev"]))
        for k, (g, w) in enumerate(zip(ev, e["ev"])):
            h = g.split("|"); head = h[0].split(" ")
            if head[:2] != [w["e"], str(w["f"])]: return "call %d is %s, the specification says %s %s" % (k + 1, h[0], w["e"], w["f"])
            if w["e"] == "rhs":
                want = "0" if w["c"] == "0" else "%.17g" % dts[-1]
                if head[2] != (want if "." in want or "e" in want else want): return "call %d: %s, the specification says factor %s" % (k + 1, h[0], want)
                m = (None if w["c"] == "0" else cmp("call %d: old data" % (k + 1), h[1].split(), data(w["pres"], dts))) or cmp("call %d: data" % (k + 1), h[2].split(), data(w["cur"], dts))
            else:
                if head[2] != "": return "call %d: %s" % (k + 1, h[0])
                m = cmp("call %d: old data" % (k + 1), h[2].split(), data(w["pre"], dts)) or cmp("call %d: data" % (k + 1), h[1].split(), data(w["new"], dts))
            if m: return m
        end, old, ch, left = [x.split()[1:] for x in parts[-4:]]
        sums = [[None] * len(V) for _ in range(3)]
        for k in range(3):
            for v in V: sums[k][V.index(v)] = e["new"][k][e["list"].index(v)] if v in e["list"] else e["rest"][k][v]
        m = cmp("data after the step", end, data(sums, dts))
        if m or c["m"] == "norhs": return m
        if c["keep"]: m = cmp("previous time level", old, data(e["old"], dts))
        elif [x for x in old if x != "~"]: m = "storage of the previous time level is kept"
        if m: return m
        n = len(e["change"][0]) * sum(N)
        m = cmp("change", ch[:n], data(e["change"], dts))
        if m: return m
        left = [x for x in left if x not in ("_p", "_q")] if c["keep"] or not same else left
        if left: return "storage of %s is kept" % left
    return f
def translate(h):
    r = [("evo_init " + " ".join("%d,%d,%d" % b for b in BOX), "ok " + " ".join(V))]; dts = []
    for n, e in enumerate(h):
        c = e["c"]; m = c["m"]; dts.append(c["dt"] / 64.0)
        meth, rk = {"icn": ("icn", "rk4"), "euler": ("euler", "rk4"), "midpoint": ("rk", "midpoint"), "rkeuler": ("rk", "euler"), "nosuch": ("nosuch", "rk4"), "rknosuch": ("rk", "nosuch"),
                    "norhs": ("icn", "rk4"), "nolist": ("icn", "rk4")}.get(m, ("rk", m))
        r.append(("evo_step %s %s %s %d %d %.17g %d %s %d %d %d" % (meth, rk, "none" if m == "nolist" else ",".join(e["list"]), c["alg"], 0 if m == "norhs" else c["f"], dts[-1],
                  c["keep"], ",".join(e["list"][:c["ch"]]) or "%", c["dbg"], n, n), judge(e, list(dts), all(x["list"] == e["list"] for x in h[:n])) if e["end"] == "ok" else None))
    if h[-1]["end"] != "ok": r[-1:] = [(r[-1][0], None)]; r.append(("#end", "exit 1"))
    return r
def run(c):
    for name, cfg, kw in (("one step", "one", {}), ("two steps with any methods and lists", "pairs", {}),
                          ("random steps", "rnd", dict(simulate=c.pick(700, 8000), depth=300, seed=c.seed, workers=1))):
        r = c.tlc(name, "Evolve", cfg="Evolve_%s.cfg" % cfg, timeout=900, **kw)
        c.replay(name, r.items, translate, tmo=60, jobs=8)
main("P10", run)
