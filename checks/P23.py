import os, sys, math, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def cmd(t): return "root %s %s %s %s %d %s %s" % (t["s"], t["x0"], t["x1"], t["x2"], t["m"], t["acc"], ",".join(t["f"]))
def nums(t): return [] if t == "%" else [float(x) for x in t.split(",")]
def trace(t, line):
    """what the solver did, with ranks for numbers; None if the test is not one the property speaks of"""
    w = line.split(" ")
    if "!" in line or "too many" in line: return line[:100]
    ev = [tuple(float(y) for y in x.split(":")) for x in w[2].split(",")] if len(w) > 2 and w[2] else []
    res = nums(w[1]); s = t["s"]; x1, x2, x0, acc = float(t["x1"]), float(t["x2"]), float(t["x0"]), float(t["acc"])
    finders, mini = ("newton", "bisect", "brent", "zbrent"), ("min", "minbrak")
    if s not in finders and (math.isinf(x1) or math.isinf(x2) or any(not math.isfinite(v) for e in ev for v in e)): return None
    if s in ("brent", "zbrent") and any(math.isnan(f) for _, f in ev): return None
    rx = [r for r in res[:3] if not math.isnan(r)] if s == "minbrak" else [res[0]] if s in mini + finders else res
    if s in ("brent", "zbrent"): d = 4.1e-14 * abs(res[0]) + acc
    elif s == "min": d = 2 * (acc * abs(res[0]) + 1e-10) * (1 + 1e-9) + 1e-15 * abs(res[0])
    else: d = acc + 4.5e-16 * abs(res[0])
    a, b = (res[0] - d, res[0] + d) if not math.isnan(res[0]) else (0.0, 0.0)
    # a nan among the points would spoil their order
    pts = sorted(x for x in {x for x, _ in ev} | {x1, x2, a, b, x0} | set(rx) if not math.isnan(x)); rk = {x: k for k, x in enumerate(pts)}
    vals = sorted({f for _, f in ev if not math.isnan(f)}); rv = {f: k for k, f in enumerate(vals)}
    def sign(k, f):
        if math.isnan(f) or (math.isinf(f) and k > 1 and s in ("newton", "bisect")): return 2
        return (f > 0) - (f < 0)
    m = 50 if s == "zbrac" else t["m"]
    r = dict(s=s, m=m, x1=rk[x1], x2=rk[x2], x0=rk.get(x0, -1), fin=math.isfinite(x1) and math.isfinite(x2), ev=[[rk[x], sign(k, f), rv.get(f, -1)] for k, (x, f) in enumerate(ev)],
             ret=max(-1, min(int(w[0]), 10**6)), res=[rk.get(x, -9) for x in res[:3]], val=-9, vals=[-9, -9, -9])
    r["from"] = rk[a]; r["to"] = rk[b]
    if s == "min": r["val"] = rv.get(res[1], -9); r["res"] = r["res"][:1]
    if s in finders: r["res"] = [rk.get(res[0], -9)]
    if s == "minbrak": r["vals"] = [rv.get(x, -8 - k) for k, x in enumerate(res[3:6])]
    if s in ("brak", "zbrac"): r["res"] = r["res"][:2]
    return r
def run(c):
    for name, cfg, many in (("all short lists of values", "short", c.pick(3, 4)), ("random functions", "random", c.pick(4000, 60000))):
        g = c.tlc(name, "Root", cfg="Root_%s.cfg" % cfg, consts={"Many": many}, seed=c.seed, workers=1 if cfg == "random" else None, timeout=900)
        tests = g.items
        out = {}
        def translate(batch):
            r = []
            for t in batch:
                def keep(line, t=t): out[cmd(t)] = (t, line)
                r.append((cmd(t), keep))
            return r
        c.replay(name, [tests[i:i + 100] for i in range(0, len(tests), 100)], translate, tmo=60, jobs=8, sample=False)
        tr, src = [], []
        for t, line in out.values():
            x = trace(t, line)
            if isinstance(x, str): c.violation("%s: %s: %s" % (name, cmd(t), x)); continue
            if x: tr.append(x); src.append((t, line))
        p = os.path.join(c.outdir, cfg + ".ndjson")
        with open(p, "w") as f:
            for x in tr: f.write(json.dumps(x) + "\n")
        v = c.tlc("traces of " + name, "Root", cfg="Root_check.cfg", env={"TRACES": p}, timeout=900)
        fate = {x["t"]: x for x in v.items}
        n = 0
        for k, (t, line) in enumerate(src):
            z = fate.get(k + 1)
            if z and z["fate"] == "ok": continue
            n += 1
            if n <= 5: c.violation("%s: no behaviour of the specification, after %s evaluations: %s gave %s" % (name, z["k"] if z else "?", cmd(t), line[:400]), dict(test=t, observed=line, trace=tr[k]))
        c.validated += len(tr)
        if tr: c.samples.append(dict(check=name, test=src[c.seed % len(src)][0], observed=src[c.seed % len(src)][1][:400], trace=tr[c.seed % len(src)]))
        c.log("%s: %d traces checked against the specification, %d refused" % (name, len(tr), n))
main("P23", run)
