import os, sys, math, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def u(t): return "%d.%d.%d" % (t[0] - 1, t[1], t[2])
def unknowns(shape, nv): return [(b + 1, p, v) for b, s in enumerate(shape) for p in range(s[0] * s[1] * s[2]) for v in range(nv)]
def cmd(s, t, unk, A, b, x, tol, omega, sub, pre, nan):
    return "lin %s %d %s %s %s %s %s %d %s %s %s %s %d" % (s, t["nv"], ",".join("x".join(map(str, q)) for q in t["shape"]), ",".join(map(u, unk)),
        ",".join("%s:%s:%d" % (u(unk[i - 1]), u(unk[j - 1]), k) for i, j, k in A) or "%", ",".join(map(str, b)), ",".join(map(str, x)), t["itmax"], tol, omega, ".".join(map(str, sub)), pre, nan)
def test(t): return cmd(t["s"], t, unknowns(t["shape"], t["nv"]), t["A"], t["b"], t["x"], t["tol"], t["omega"], t["sub"], t["pre"], t["nanat"])
def trace(t, line):
    """what the solver did and how true its report is"""
    w = line.split(" ")
    ret, nr, st, en, n, big = int(w[0]), float(w[1]), float(w[2]), float(w[3]), int(w[4]), float(w[5])
    xs = [float(z) for z in w[11].split(",")]; lost = not all(map(math.isfinite, xs))
    big = max([big] + [abs(z) for z in xs if math.isfinite(z)])
    ev = "" if w[10] == "%" else w[10]; tol = float(t["tol"]); plain = t["s"] == "bicgstab"
    scale = 1.0 if t["s"].startswith("sor") else 1 / math.sqrt(n)
    slack = 1e-12 * (t["itmax"] + 3) * (1 + big)
    A = math.sqrt(sum(e[2] ** 2 for e in t["A"])); size = math.sqrt(sum(v * v for v in t["b"])) + A * math.sqrt(sum(v * v for v in t["x"]))
    if big > 1e4 * size: slack = 1e-6 * big        # it diverged on the way: its steps, which nobody sees, may have been larger still
    if t["s"] == "wt": slack *= 400                # every step may be tried hundreds of times
    def where(s2, exact):
        r = math.sqrt(s2) * scale if s2 == s2 else s2
        if r != r or tol != tol or math.isinf(r) or math.isinf(big) or big != big: return ("nan" if r != r or math.isinf(r) else "edge") if tol == tol else "out"
        return "in" if r <= tol - slack else "out" if r > tol + slack else "in" if exact and r <= tol else "edge"
    if lost: en = math.nan
    r = math.sqrt(en) * scale if en == en else en
    fine = (r != r or math.isinf(r) or math.isinf(big) or big != big) or abs(nr - r) <= slack
    if big > 1e4 * size: fine = True
    if t["nanat"] or t["pre"] == "nan": fine = fine or nr != nr       # the solver saw what was not a number
    if r != r: fine = nr != nr or math.isinf(nr) or lost    # an unknown nobody asks for may be lost without the solver's seeing it
    d = dict(itmax=t["itmax"], ret=ret, ev=list(ev), setup=0 if plain else 2 * n + 2, start=where(st, 1), end=where(en, 0), same=bool(fine), keeps=plain and not t["nanat"], temps=w[7] == "0", others=w[8] == "1" and w[9] == "0", heap=int(w[6]))
    if d["end"] == "in" and nr != nr and (t["nanat"] or t["pre"] == "nan"): d["end"] = "edge"
    if not plain: d["ev"] = d["ev"][-4000:]
    return d
def exact(groups):
    r = []
    for e in groups:
        s = e["sys"]; n = len(s["b"]); A = [[i + 1, j + 1, s["A"][i][j]] for i in range(n) for j in range(n) if s["A"][i][j]]
        def f(line, e=e, s=s):
            w = line.split(" ")
            if int(w[0]) != e["ret"]: return "returns %s, not %d" % (w[0], e["ret"])
            x = [float(z) for z in w[11].split(",")]; want = [q / e["scale"] for q in e["x"]]
            if x != want: return "solution %s, not %s" % (x, want)
            nr = math.sqrt(sum(q * q for q in e["f"])) / e["scale"]
            if abs(float(w[1]) - nr) > 1e-14 * nr: return "residual norm %s, not %.17g" % (w[1], nr)
            if int(w[6]) > 0 or w[7:10] != ["0", "1", "0"]: return "memory, storage, other variables, arguments: %s" % w[6:10]
        r.append((cmd("sor_sorted" if s["sorted"] else "sor", s, [tuple(q) for q in e["unk"]], A, s["b"], [9] * n, s["tol2"] / 2, s["w2"] / 2, [1, 1, 1], "I", 0), f))
    return r
def lots(items, n): return [items[i:i + n] for i in range(0, len(items), n)]
def run(c):
    c.tlc("the solver as a machine", "LinSolve", cfg="LinSolve_model.cfg")
    for name, cfg, many in (("all operators on two unknowns", "two", 0), ("invalid numbers from the operator or the preconditioner", "nan", 0), ("other solvers on two unknowns", "others", 0), ("random systems", "random", c.pick(3000, 60000))):
        g = c.tlc(name, "LinSolve", cfg="LinSolve_%s.cfg" % cfg, consts={"Many": many}, seed=c.seed, workers=1 if many else None, timeout=900)
        out = {}
        def translate(batch):
            r = []
            for t in batch:
                def keep(line, t=t): out[test(t)] = (t, line)
                r.append((test(t), keep))
            return r
        c.replay(name, lots(g.items, 100), translate, tmo=120, jobs=8, sample=False)
        tr, src = [], []
        for t, line in out.values():
            try: tr.append(trace(t, line)); src.append((t, line))
            except (ValueError, IndexError): c.violation("%s: %s: %s" % (name, test(t), line[:200]))
        p = os.path.join(c.outdir, cfg + ".ndjson")
        with open(p, "w") as f:
            for x in tr: f.write(json.dumps(x) + "\n")
        v = c.tlc("calls: " + name, "LinSolve", cfg="LinSolve_check.cfg", env={"TRACES": p}, timeout=900)
        fate = {x["t"]: x for x in v.items}; n = 0
        for k, (t, line) in enumerate(src):
            z = fate.get(k + 1)
            if z and z["fate"] == "over": continue
            n += 1
            if n <= 5: c.violation("%s: no behaviour of the specification (%s): %s gave %s" % (name, z["why"] or "event %d" % z["k"] if z else "?", test(t), line[:300]), dict(test=t, observed=line, trace=tr[k]))
        c.validated += len(tr)
        if tr: c.samples.append(dict(check=name, test=src[c.seed % len(src)][0], observed=src[c.seed % len(src)][1][:400], trace={k: x for k, x in tr[c.seed % len(src)].items() if k != "ev"}))
        c.log("%s: %d calls checked against the specification, %d refused" % (name, len(tr), n))
    for name, cfg, many in (("over-relaxation of two unknowns, exactly", "two", 0), ("over-relaxation, random, exactly", "random", c.pick(2000, 30000))):
        g = c.tlc(name, "SOR", cfg="SOR_%s.cfg" % cfg, consts={"Many": many}, seed=c.seed, workers=1 if many else None, timeout=900)
        c.replay(name, lots(g.items, 200), exact, tmo=120, jobs=8)
main("P22", run)
