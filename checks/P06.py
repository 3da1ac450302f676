import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *

def dump(reg):
    return "%d" % len(reg) + "".join(" %s:%s:%d:%d:%d:%s:%s:%s:%d:%d:%d" % (enc(r["name"]), enc(r["ti"]), r["comp"], r["n"], r["const"],
        r["far"], r["fall"], r["speed"], *r["par"]) for r in reg)

def translate(h):
    r = []
    for s in h:
        cmd = s["op"] + "".join(" " + enc(x) for x in s["args"])
        if s["ret"] == "<exit>":
            r.append((cmd, None)); r.append(("#end", "exit 1")); return r
        r.append((cmd, enc(s["ret"]))); r.append(("dumpvars", dump(s["reg"])))
    return r

def forms(f):
    """the components of one index string, bare and as a declared variable"""
    if not f["ok"]:
        return [("tensor " + enc(f["form"]), None), ("#end", "exit 1")]
    surf = any(c in f["form"].lower() for c in "qrst")
    want = ["%s:%s" % (enc(c["suf"]), ":".join(map(str, c["par"]))) for c in f["comps"]]
    def cmp(o):
        w = o.split(" ")
        if int(w[0]) != len(want): return "specification says %d components" % len(want)
        for a, b in zip(w[1:], want):
            if (a.split(":")[0] if surf else a) != (b.split(":")[0] if surf else b): return "specification says component %s" % b
    n = len(want)
    return [("tensor " + enc(f["form"]), cmp), ("addvar before % d", "ok"), ("addvar V %s text" % enc(f["form"]), "ok"), ("addvar after (ij) d", "ok"),
            ("dumpvars", lambda o: None if o.startswith("%d " % (n + 7)) and
             [x.split(":")[0] for x in o.split(" ")[2:2 + n]] == ["V" + ("" if c["suf"] == "" else c["suf"]) for c in f["comps"]]
             and [x.split(":")[2] for x in o.split(" ")[2:2 + n]] == [str(i) for i in range(n)] and "index!" not in o else "wrong registration")]

def run(c):
    c.driver()
    r = c.tlc("index symmetries", "TensorForms", timeout=120)
    c.replay("index symmetries", r.items, forms)
    r = c.tlc("every transition", "VarReg", cfg="VarReg_trans.cfg", consts={"MaxVars": c.pick(4, 5), "MaxHist": c.pick(5, 6)}, timeout=900)
    c.replay("every transition", r.items, translate)
    r = c.tlc("long histories (random)", "VarReg", cfg="VarReg_sim.cfg", simulate=c.pick(15, 600), depth=40, seed=c.seed, workers=1, timeout=900)
    c.replay("long histories (random)", r.items, translate)

main("P06", run)
