import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
REG = ["u", "v", "c", "q"]
lst = lambda a: ",".join(map(str, a)) or "%"
def index(es):
    r = []
    for e in es:
        n = e["n"]; sz = n[0] * n[1] * n[2]
        w = "size=%d;" % sz + ",".join("%d.%d.%d" % tuple(p) for p in e["pts"]) + ";"
        L = lambda a: "|" + ",".join(map(str, a))
        for d in range(3):
            for x in range(n[d]): w += L(e["plane"][d][x]) * 3 + L(e["inner"][d][x])
        def f(line, w=w, n=n):
            if line == w: return None
            a, b = line.split("|"), w.split("|")
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return "box %s: %s%s, not %s" % (n, "index map " if k == 0 else "plane loop %d " % (k - 1), a[k] if k < len(a) else "nothing", b[k] if k < len(b) else "nothing")
        r.append(("lo_index %d %d %d" % tuple(n), f))
    return r
WRONG = {"Deriv": "%d u v", "Deriv2": "%d u v", "Ana": "%d u v", "Syn": "%d u v", "CoeffsIn": "%d 0 u v", "EvalIn": "%d 0 u v", "Filter": "%d u", "Over": "%d u v cheb cheb cheb",
         "AtIn": "%d 0 u 1 1", "AtLine": "%d 0 0 u 1", "Get": "%d 0 0 u", "Put": "%d 0 0 u 1", "Int": "%d u v", "All": "%d u"}
def ops(e):
    n = e["n"]; r = [("lo_set %d %d %d %d %d %d %d %d %d %d %d %d" % tuple(n + e["lo"] + e["w"] + [int(x) for x in e["fft"]]), "ok")]
    if e["m"]:
        for role in e["m"]:
            for d in range(3): r.append(("lo_mat %s %d %s" % (role, d + 1, lst([x for row in e["m"][role][d] for x in row])), "ok"))
    else: r.append(("lo_box0", "ok"))
    f = {k: [0] * (n[0] * n[1] * n[2]) for k in REG}
    for h in [{"op": "Fill", "a": [k, e["f"][k]], "reg": k, "g": e["f"][k], "ret": []} for k in REG] + e["hist"]:
        o = h["op"]
        if o == "Fail":
            what, val, d = h["a"]
            args = "%d %d 0 u v" % (d, val) if what in ("AnaIn", "SynIn") else WRONG[what] % val
            r += [("lo_op %s %s" % (what, args), None), ("#end", "exit 1")]; return r
        a = h["a"]
        if o == "Regrid": a = [a[0], a[1], [x for p in a[2] for x in p]]
        s = " ".join(lst(x) if isinstance(x, list) else str(x) for x in a)
        if not e["m"] and o != "Fill":
            if not h["reg"]: r += [("lo_op %s %s" % (o, s), None), ("#end", "exit 1")]; return r
        if h["reg"]: f[h["reg"]] = h["g"]
        ret = h["ret"]
        if o == "Filter3": f[a[1]] = ret; ret = []
        ret = "/".join(",".join(map(str, x)) for x in ret) if o == "All" else ",".join(map(str, ret))
        want = "|".join([ret] + [",".join(map(str, f[k])) for k in REG])
        def pred(line, want=want, o=o, s=s):
            if line == want: return None
            x, y = line.split("|"), want.split("|")
            for i, nm in enumerate(["result"] + REG):
                if i >= len(x) or x[i] != y[i]: return "%s %s: %s %s, not %s" % (o, s, nm, x[i] if i < len(x) else line, y[i])
            return "more output"
        r.append(("lo_op %s %s" % (o, s), pred))
    return r
def sphere(e):
    """the partner of a point is the same point in space"""
    n = e["n"]
    s = "physics=verif\nnboxes=1\ndt=1\niterations=0\ncheckpoint=no\nverif_vars=u\nbox0_Coordinates=SphericalDF\nbox0_min1=1\nbox0_max1=3\n"
    for d in (2, 3): s += "box0_basis%d=Fourier\nbox0_min%d=0\nbox0_max%d=2*pi\n" % (d, d, d)
    s += "".join("box0_n%d=%d\n" % (d + 1, n[d]) for d in range(3)) + "verif_funs=INITIALDATA/t/twice\n"
    f = lambda line: None if ";twice 0" in line else "box %s: points covered twice lie elsewhere: %s" % (n, line[:200])
    return [("sandbox", None), ("mkfile a.par " + enc(s), None), ("run - a.par", f)]
def batch(items, k): return [items[i:i + k] for i in range(0, len(items), k)]
def run(c):
    r = c.tlc("every box shape", "LineOps", cfg="LineOps_index%s.cfg" % c.pick("", "_big"), timeout=900)
    c.replay("index maps and loops over planes", batch(r.items, 8), index, tmo=60, jobs=8)
    c.replay("points covered twice in space", [e for e in r.items if e["partner"] and e["n"][0] in (2, 3)], sphere, tmo=60, jobs=8)
    for k in range(c.pick(1, 6)):
        r = c.tlc("operations on lines %d" % k, "LineOps", cfg="LineOps_ops_rnd.cfg", simulate=c.pick(200, 2500), depth=20, seed=18 + k + 1000 * c.seed, workers=1, timeout=900)
        c.replay("operations on lines %d" % k, r.items, ops, tmo=60, jobs=8, variant=c.pick("plain", "asan"))
        r = c.tlc("points covered twice %d" % k, "LineOps", cfg="LineOps_twice_rnd.cfg", simulate=c.pick(300, 2000), depth=12, seed=28 + k + 1000 * c.seed, workers=1, timeout=900)
        c.replay("points covered twice %d" % k, r.items, ops, tmo=60, jobs=8)
main("P18", run)
