import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
S = 64
D0 = [{str(v): [S * (100 * b + 10 * v + p) if v < 5 else 0 for p in range(1, n + 1)] for v in range(6)} for b, n in ((1, 2), (2, 1))]
def fl(x):     # a number kept in units of 1/S
    q = x / S
    return "%d" % q if q == int(q) else repr(q)
def lists(l): return " ".join("%s:%s" % (fl(x["t"]), ",".join(map(str, x["s"])) or "%") if x["on"] else "~" for x in l)
def data(d): return " ".join(";".join("-" if i == "5" else ",".join(fl(x) for x in b[i]) for i in sorted(b)) for b in d)
def coef(c): return repr(c[0] / c[1])

def translate(h):
    r = [("addvar %s %s d" % a, "ok") for a in (("a", "%"), ("b", "%"), ("w", "i"), ("o", "%"))]
    if h[0]["op"] != "init":      # a tour through the list operations: data as at the start
        k = len(h[0]["st"]["l"])
        h = [dict(op="init", args=[], st=dict(l=[dict(on=False, s=[], t=0)] * k, d=D0))] + h
    d = h[0]["st"]["d"]
    n = len(h[0]["st"]["l"])
    shapes = ["%dx%dx%d" % ((1, 1, len(b["0"])) if k % 2 else (len(b["0"]), 1, 1)) for k, b in enumerate(d)]
    r.append(("mkgrid 1 " + ",".join(shapes), "ok"))
    for i in range(5): r.append(("encomp 1 %d" % i, None))
    for b in range(len(d)):
        for i in range(5): r.append(("setv 1 %d %d %s" % (b, i, ",".join(fl(x) for x in d[b][str(i)])), "ok"))
    r.append(("inactive 1 " + (",".join(map(str, h[0]["args"])) or "%"), "ok"))
    for k, l in enumerate(h[0]["st"]["l"]):
        if l["on"]: r.append(("vlmake %d %s %s" % (k + 1, ",".join(map(str, l["s"])) or "%", fl(l["t"])), "ok"))
    for s in h[1:]:
        args = [coef(a) if isinstance(a, list) else str(a) for a in s["args"]]
        r.append((s["op"] + " " + " ".join(args), "ok"))
        r.append(("dumplists %d" % n, lists(s["st"]["l"])))
        d = s["st"]["d"] or d
        r.append(("data 1", data(d)))
    return r

def run(c):
    c.driver("asan")
    for name, cfg, kw in (
        ("list operations, every transition", "list", dict(consts={} if c.quick else {"PushVars": "{0, 2, 4}"})),
        ("arithmetic, every operation and operand", "arith", dict()),
        ("arithmetic with an inactive box", "arith", dict(consts={"Inactive": "{1}", "Coefs": "<- CoefC"})),
        ("long histories (random)", "sim", dict(simulate=c.pick(60, 4000), depth=45, seed=c.seed, workers=1))):
        r = c.tlc(name, "VarList", cfg="VarList_%s.cfg" % cfg, timeout=900, **kw)
        if cfg == "list": r.items = tours(r.items, init=[dict(on=False, s=[], t=0)] * 2)
        c.replay(name, r.items, translate, variant="asan")
    if not c.quick:
        r = c.tlc("pairs of arithmetic operations", "VarList", cfg="VarList_arith.cfg", timeout=900, consts={"MaxHist": 3, "Coefs": "<- CoefC", "InitLists": "<- ListsC", "NL": 3, "Groups": '{"arith"}'})
        c.replay("pairs of arithmetic operations", r.items, translate, variant="asan")

main("P07", run)
