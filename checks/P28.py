import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
TINY = {-2: -2e-10, -1: -5e-11, 0: 0.0, 1: 5e-11, 2: 2e-10, 9: float("nan")}
BASIS = {"c": "ChebExtrema", "p": "Fourier"}
def val(p): return p[0] / 4.0 + TINY[p[1]]
def gridfile(m, q, a):
    s = "physics=verif\nnboxes=%d\ndt=1\niterations=0\ncheckpoint=no\nverif_vars=u\nCoordinates_verbose=no\nCoordinates_set_bfaces=no\n" % len(m)
    for b, x in enumerate(m):
        s += "box%d_Coordinates=Cartesian\n" % b
        for d in range(3): s += "box%d_n%d=%d\nbox%d_min%d=%.17g\nbox%d_max%d=%.17g\nbox%d_basis%d=%s\n" % (b, d + 1, x[d]["n"], b, d + 1, x[d]["lo"] / 4.0, b, d + 1, x[d]["hi"] / 4.0, b, d + 1, BASIS[x[d]["basis"]])
    return s + "verif_funs=INITIALDATA/t/locate:%s:%s\n" % (q, a)
def cubefile(m, q, a):
    s = "physics=verif\nnboxes=%d\ndt=1\niterations=0\ncheckpoint=no\nverif_vars=u\nCoordinates_verbose=no\nCoordinates_set_bfaces=no\nn1=4\nn2=4\nn3=4\n" % (m["b0"] + m["kind"])
    for b in range(m["b0"]):
        for d in (1, 2, 3): s += "box%d_min%d=%d\nbox%d_max%d=%d\nbox%d_basis%d=ChebExtrema\n" % (b, d, 100 + 20 * b, b, d, 103 + 20 * b, b, d)
    return s + "verif_funs=PRE_COORDINATES/c/cubes:%d:%s INITIALDATA/t/locate:%s:%s\n" % (m["b0"], ":".join("%.17g" % (m[k] / 8.) for k in ("dc", "din1", "dmid1", "din2", "dmid2", "r0", "r1")), q, a)
def question(h, cubes):
    """the question as the driver reads it; boxes and points count from 0 there"""
    l = [k - (not cubes) for k in h.get("l", [])]
    if cubes: p = [x / 128.0 for x in h["p"]]
    elif "q" in h: p = [x / 4.0 for x in h["q"]]
    else: p = [val(x) for x in h["p"]]
    return "%s %s %d %d %d %s 0.5 0.25 -0.75" % (h["op"], ",".join(map(str, l)) or "%", h.get("b", 1) - 1, h.get("d", 1), h.get("i", 1) - 1, " ".join("%.17g" % x for x in p)), p
def within(x, y, tol): return abs(x - y) <= tol          # false for a nan
def judge_grid(m, h, p, t):
    o = h["op"]
    if o in ("all", "list"):
        a = h["ans"]; b = int(t[0])
        if a["box"] < 0: return None if b < 0 else "a place outside is found in box %d" % b
        if b != a["box"]: return "found in box %d, not in %d" % (b, a["box"])
        for d in range(3):
            if not within(float(t[1 + d]), val(a["at"][d]), 1e-14): return "found at %s, not at %s" % (t[1:4], [val(x) for x in a["at"]])
        return None
    if o[0] == "n":
        b, i, r = int(t[0]), int(t[1]), float(t[2]); n = h["near"][0]
        if not within(r, (n["r2"] ** 0.5) / 4, 1e-12): return "distance %.17g, not %.17g" % (r, (n["r2"] ** 0.5) / 4)
        for n in h["near"]:
            if n["box"] != b: continue
            x = m[b]; ijk = (i % x[0]["n"], i // x[0]["n"] % x[1]["n"], i // x[0]["n"] // x[1]["n"])
            if all(ijk[d] + 1 in n["pts"][d] for d in range(3)):
                at = [(x[d]["lo"] + x[d]["step"] * ijk[d]) / 4.0 for d in range(3)]
                return None if all(within(float(t[3 + d]), at[d], 1e-12) for d in range(3)) else "point %d of box %d is at %s, not at %s" % (i, b, at, t[3:6])
        return "point %d of box %d is not the nearest" % (i, b)
    f = h["faces"]
    if int(t[0]) != len(f): return "on %s faces, not %d" % (t[0], len(f))
    if o == "face": return None if [int(x) for x in t[1:]] == [int(k in f) for k in range(6)] else "on faces %s, not %s" % (t[1:], f)
    for d in range(3):
        s = m[h["b"] - 1][d]; x = float(t[1 + d]); w = (s["hi"] - s["lo"]) / 4.0
        if 2 * d in f or 2 * d + 1 in f:
            e = (x - s["lo"] / 4.0) if 2 * d in f else s["hi"] / 4.0 - x
            if not 1e-9 < e < w / 100: return "moved from %s to %s, %g from face %d" % (p, t[1:], e, [k for k in f if k // 2 == d][0])
        elif x != p[d]: return "moved along direction %d without need" % (d + 1)
    return None
def judge_cubes(m, h, p, t):
    b = int(t[0]); w = h["ans"]
    if w == -1: return None if b < 0 else "a place in none of the boxes searched is found in box %d at %s" % (b, t[1:4])
    if w >= 0 and b != w: return "found in box %d, not in %d" % (b, w)
    if w == -2 and b < 0: return "not found" if h["op"] == "all" else None
    X = [float(x) for x in t[1:4]]; back = [float(x) for x in t[4:7]]; bb = [float(x) for x in t[7:13]]
    if not all(bb[2 * d] <= X[d] <= bb[2 * d + 1] for d in range(3)): return "found at %s, outside box %d" % (X, b)
    if not all(within(back[d], p[d], 1e-9 * (1 + abs(p[d]))) for d in range(3)): return "%s in box %d is %s, not %s" % (X, b, back, p)
    return None
def run(c):
    made = [0]
    def translate(e):
        m = e["conf"]; cubes = isinstance(m, dict); hs = [h for h in e["hist"] if h["op"] != "made"]
        made[0] += 1; q = "q.txt"; a = os.path.join(c.outdir, "ans%d" % made[0]); qs = [question(h, cubes) for h in hs]
        if os.path.exists(a): os.remove(a)
        def keep(line):
            if not os.path.exists(a): return "the run ended with %s" % line[:200]
            r = open(a).read().split("\n")[:-1]; os.remove(a)
            if len(r) != len(hs): return "%d answers to %d questions" % (len(r), len(hs))
            for h, (s, p), got in zip(hs, qs, r):
                y = (judge_cubes if cubes else judge_grid)(m, h, p, got.split(" "))
                if y: return "%s: %s (answer %s)" % (s, y, got)
        return [("sandbox", None), ("mkfile q.txt " + enc("\n".join(s for s, _ in qs) + "\n"), None), ("mkfile a.par " + enc((cubefile if cubes else gridfile)(m, q, a)), None), ("run - a.par", keep)]
    g = c.tlc("two boxes in a row", "Locate", cfg="Locate_small.cfg", timeout=600)
    c.replay("two boxes in a row", g.items, translate, tmo=60, jobs=8)
    for k in range(c.pick(1, 4)):
        for name, cfg, many in (("boxes with gaps and overlaps", "grid", c.pick(250, 2500)), ("curved boxes", "cubes", c.pick(100, 1000))):
            g = c.tlc("%s %d" % (name, k), "Locate", cfg="Locate_%s_rnd.cfg" % cfg, simulate=many, depth=100, seed=28 + k + 1000 * c.seed, workers=1, timeout=900)
            c.replay("%s %d" % (name, k), g.items, translate, tmo=60, jobs=8)
main("P28", run)
