import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
import runs
num8 = lambda t: runs.num(t, 8)
def parfile(c, funs, n=None, ck="no", extra=""):
    s = "physics=verif\nnboxes=1\nbox0_n1=2\nbox0_n2=2\nbox0_n3=2\nverif_funs=%s\n" % " ".join(funs)
    s += "dt=%s\niterations=%d\n" % (num8(c["dt"]), c["n"] if n is None else n)
    if n is None and c["ft"]: s += "finaltime=%s\n" % num8(c["ft"])
    if n is None and c["scan"]: s += "iterate_parameters=yes\niterate_parameter1=verif_q %s\n" % " ".join("v%d" % k for k in range(c["scan"]))
    s += "checkpoint=%s\n" % ck
    return s + extra
def translate(b):
    c, h = b["cfg"], b["hist"]
    acts = {}; calls = {}
    for e in h:
        calls[e["f"]] = calls.get(e["f"], 0) + 1
        x = e["act"]
        if x["a"] == "-": continue
        t = {"n": lambda: "set:iterations:%d" % x["v"], "ft": lambda: "set:finaltime:%s" % num8(x["v"]), "dt": lambda: "set:dt:%s" % num8(x["v"]),
             "fun": lambda: "fun:%s:%s" % (x["p"], x["name"]), "err": lambda: "err"}[x["a"]]()
        acts.setdefault(e["f"], []).append("%s@!%d" % (t, calls[e["f"]]))
    funs = ["%s/f%d/%s" % (p, k + 1, "+".join(acts.get("f%d" % (k + 1), []))) for k, p in enumerate(c["funs"])]
    ev = []
    for e in h: ev.append("%s %s %d %s" % (e["ph"], e["f"], e["it"], num8(e["t"])) if e["g"] else "%s %s" % (e["ph"], e["f"]))
    exp = "".join([b["end"]] + [";" + x for x in ev])
    r = [("sandbox", None)]
    if c["ck"]:
        r += [("mkfile a.par " + enc(parfile(c, [], n=c["ck"], ck="yes", extra="checkpoint_di=%d\n" % c["ck"])), None), ("run - a.par", "exit 0"),
              ("mkfile a.par " + enc(parfile(c, funs, ck="yes", extra="checkpoint_restart_it=%d\n" % c["rit"])), None), ("run - a.par", exp)]
    elif c["lines"] > 1:
        r += [("mkfile %s.par " % "abc"[k] + enc(parfile(c, funs)), None) for k in range(c["lines"])]
        r += [("mkfile args " + enc("".join("%s.par\n" % "abc"[k] for k in range(c["lines"]))), None), ("run - --argsfile args", exp)]
    else: r += [("mkfile a.par " + enc(parfile(c, funs)), None), ("run - a.par", exp)]
    return r
def name_new(b):
    n = len(b["cfg"]["funs"])
    for e in b["hist"]:
        if e["act"]["a"] == "fun": n += 1; e["act"]["name"] = "f%d" % n
    return b
def run(c):
    for name, cfg, kw in (("two functions in any phases", "two", {}), ("every phase, one deed at any call", "acts", {}),
                          ("random programs", "rnd", dict(simulate=c.pick(6000, 100000), depth=3000, seed=c.seed, workers=1))):
        r = c.tlc(name, "Phases", cfg="Phases_%s.cfg" % cfg, timeout=900, **kw)
        c.replay(name, [name_new(b) for b in r.items], translate, tmo=60, jobs=8)
main("P09", run)
