import os, sys, math, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def base(t, g, tol, step, atmin, minstep, eps, script, loose): return "newton %d %s %s %s %d %s %s %s %s %s %s %s %s %s %s %d %d %d %d" % (t["nv"], ",".join("x".join(map(str, q)) for q in t["shape"]), g, t["u0"], t["itmax"], tol, step, atmin,
    "%20".join(t.get("list", [])) or "%", minstep, eps, "Jdu" if t.get("jend", True) else "nothing", script, 0.5 if t.get("half", True) else 0, t.get("lintol2", 1) / 2, t.get("linit", 5), t.get("hooks", 3), t.get("swap", 0), loose)
def val(x): return float("nan") if x == 9 else float(x)
def exact(t):
    at = [w for w, on in (("quit", t["quit"]), ("AltLinSolver", t["another"]), ("escapeMin", t["escape"])) if on] or ["donothing"]
    return base(t, "".join("%s." % ("nan" if x == 9 else x) for x in t["g"]), t["tol2"] / 2, "backtrack" if t["back"] else "full", "%20".join(at), 1.5 if t["wide"] else 0.05, 0, ",".join("%d:%d" % tuple(s) for s in t["script"]), 0)
def same(a, b): return a == b or (a != a and b != b)
def compare(e):
    t = e["t"]
    def f(line):
        w = line.split(" ")
        if len(w) != 8: return "output " + line[:200]
        if int(w[0]) != e["ret"]: return "returns %s, not %d" % (w[0], e["ret"])
        if w[4:7] != ["0", "0", "1"]: return "wrong arguments, endless, or other variables changed: %s" % w[4:7]
        nr = abs(val(e["fu"]))
        if not (same(float(w[1]), nr) or abs(float(w[1]) - nr) < 1e-12 * (1 + nr)): return "residual norm %s, not %g" % (w[1], nr)
        if abs(float(w[2]) - e["u"]) > 1e-9: return "final state %s, not %d" % (w[2], e["u"])
        got = [] if w[7] == "%" else w[7].split(",")
        for k in range(max(len(got), len(e["ev"]))):
            if k >= len(got) or k >= len(e["ev"]): return "call %d: %s, not %s" % (k + 1, got[k] if k < len(got) else "none", e["ev"][k] if k < len(e["ev"]) else "none")
            x, y = got[k], e["ev"][k]; kind = y[0][0]
            if x[0] != kind: return "call %d: %s, not %s" % (k + 1, x, y)
            a = x[1:].split(":")
            if kind in "FAB" or y[0] == "J":
                if not (a[0] and abs(float(a[0]) - y[1]) < 1e-9): return "call %d: %s, not %s" % (k + 1, x, y)
            if kind == "L":
                if int(a[0]) != y[1] or abs(float(a[1]) - y[2]) > 1e-9 or not (same(float(a[2]), val(y[3])) or abs(float(a[2]) - y[3]) < 1e-9): return "call %d: linear equations %s, not %s" % (k + 1, x, y)
                if y[3] != 9 and abs(float(a[3]) - y[4]) > 1e-9 or int(a[4]) != t["linit"]: return "call %d: tolerance and limit of the linear solver %s, not %s and %d" % (k + 1, x, y, t["linit"])
    return f
def find(t): return base(t, t["g"], t["tol"], t["mode"], "donothing", 0.05, 0, ",".join("%d:%s" % tuple(s) for s in t["script"]), 1)
def trace(t, line):
    w = line.split(" "); tol = float(t["tol"])
    ev = [] if w[7] == "%" else [(x[0], [float(y) for y in x[1:].split(":") if y]) for x in w[7].split(",")]
    if any(not math.isfinite(v[0]) or abs(v[1]) > 1e140 for k, v in ev if k in "FA"): return None      # the state itself was lost, or the squares of the residual overflow
    nr, u = float(w[1]), float(w[2])
    vals = sorted({round_(abs(v[1])) for k, v in ev if k in "FA" and v[1] == v[1]} | ({round_(nr)} if nr == nr else set())); rv = {x: k for k, x in enumerate(vals)}
    within = -1 if tol != tol else sum(1 for x in vals if x <= tol) - 1
    pos = []
    def at(x):
        for k, y in enumerate(pos):
            if abs(x - y) <= 1e-11 * (1 + abs(y)): return k
        pos.append(x); return len(pos) - 1
    def rank(f): return -1 if f != f else rv[round_(abs(f))]
    script = [(a, b) for a, b in t["script"]]; n = 0; out = []
    for k, (e, v) in enumerate(ev):
        if e == "B": continue
        r = dict(k=e, at=0, f=0, ok=True, ret=0, full=0)
        if e in "FA": r["at"] = at(v[0]); r["f"] = rank(v[1])
        if e == "L":
            s = script[n % len(script)]; n += 1
            r["at"] = at(v[1]); r["ret"] = s[0]
            # the residual handed over is that of the present state
            prev = [x for x in ev[:k] if x[0] == "F"][-1]
            r["ok"] = same(abs(v[2]), abs(prev[1][1])); r["f"] = rank(prev[1][1])
            d = v[5]
            if not math.isfinite(d): return None
            r["full"] = at(v[1] - d)
        if e == "J": r["ok"] = v == [0.0]
        out.append(r)
    return dict(itmax=t["itmax"], tol=within, back=t["mode"] != "full", optimal="optimal" in t["mode"], ret=int(w[0]), at=at(u), norm=rank(nr), clean=w[4:7] == ["0", "0", "1"], ev=out)
def round_(x): return float("%.11g" % x)
def lots(items, n): return [items[i:i + n] for i in range(0, len(items), n)]
def run(c):
    for name, cfg, many in (("every short run", "small", 0), ("random runs", "random", c.pick(4000, 60000))):
        gen = c.tlc(name, "Newton", cfg="Newton_%s.cfg" % cfg, consts={"Many": many}, seed=c.seed, workers=1 if many else None, timeout=900)
        c.replay(name, lots(gen.items, 200), lambda b: [(exact(e["t"]), compare(e)) for e in b], tmo=120, jobs=8)
    name = "searching along the step"
    gen = c.tlc(name, "Newton", cfg="Newton_search.cfg", consts={"Many": c.pick(3000, 60000)}, seed=c.seed, workers=1, timeout=900)
    out = {}
    def translate(batch):
        r = []
        for t in batch:
            def keep(line, t=t): out[find(t)] = (t, line)
            r.append((find(t), keep))
        return r
    c.replay(name, lots(gen.items, 100), translate, tmo=120, jobs=8, sample=False)
    tr, src = [], []
    for t, line in out.values():
        if len(line.split(" ")) != 8 or line.split(" ")[5] != "0": c.violation("%s: %s: %s" % (name, find(t), line[:200])); continue
        x = trace(t, line)
        if x: tr.append(x); src.append((t, line))
    p = os.path.join(c.outdir, "search.ndjson")
    with open(p, "w") as f:
        for x in tr: f.write(json.dumps(x) + "\n")
    v = c.tlc("traces: " + name, "Newton", cfg="Newton_check.cfg", env={"TRACES": p}, timeout=900)
    fate = {x["t"]: x for x in v.items}; n = 0
    for k, (t, line) in enumerate(src):
        z = fate.get(k + 1)
        if z and z["fate"] == "over": continue
        n += 1
        if n <= 5: c.violation("%s: no behaviour of the specification: %s gave %s" % (name, find(t), line[:600]), dict(test=t, observed=line, trace=tr[k]))
    c.validated += len(tr)
    if tr: c.samples.append(dict(check=name, test=src[c.seed % len(src)][0], observed=src[c.seed % len(src)][1][:400]))
    c.log("%s: %d runs checked against the specification, %d refused" % (name, len(tr), n))
main("P21", run)
