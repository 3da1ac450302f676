import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *

def full(db):
    return " ".join("%s=%s:%s:%s:%s" % (enc(p["n"]), enc(p["v"]), enc(p["d"]), p["x"], p["b"]) for p in db) or "-"

def translate(h):
    r = []
    for s in h:
        a = list(s["args"]); op = s["op"]
        cmd = op + "".join(" " + enc(x) for x in a)
        if op in ("mkcopy", "cpcopy", "restore", "dumpcopy"): cmd = op + " 1"
        ret = s["ret"]
        if ret == "<exit>":
            r.append((cmd, None)); r.append(("#end", "exit 1")); return r
        if op == "dumpcopy": ret = full(ret)
        elif ret == "<null>": ret = "~"
        elif op in ("gets", "getslax", "nextpar"): ret = enc(ret)
        r.append((cmd, ret))
        r.append(("full", full(s["db"])))
    return r

def run(c):
    c.driver()
    for name, k in (("assignments and reads", {"Vals": '{"", "1", "xab ab", "yes 2"}'} if c.quick else {"Vals": '{"", "1", "xab ab", "yes 2"}', "MaxLen": 14}),
                    ("word iteration", {"Vals": '{"", "x ab", "yes 2 3"}', "Groups": '{"add","set","iter","app"}', "Words1": '{"ab"}'}),
                    ("copies", {"Vals": '{"1", "x"}', "Groups": '{"add","set","self","copy"}'})):
        nm = "every transition: " + name
        r = c.tlc(nm, "ParDB", cfg="ParDB_trans.cfg", consts=k, timeout=c.pick(120, 900))
        c.replay(nm, r.items, translate)
    r = c.tlc("short histories (exhaustive)", "ParDB", cfg="ParDB_paths.cfg", consts={"MaxHist": c.pick(3, 4)})
    c.replay("short histories (exhaustive)", r.items, translate)
    r = c.tlc("long histories (random)", "ParDB", cfg="ParDB_sim.cfg", simulate=c.pick(40, 3000), depth=60, seed=c.seed, workers=1)
    c.replay("long histories (random)", r.items, translate)
    # capacity: the store grows to its documented limit without losing entries
    n = 9990
    c.replay("capacity", [[n]], lambda h: [("manypars %d" % h[0], "%d 0" % h[0])])

main("P02", run)
