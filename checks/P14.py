import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def ints(s): return ",".join(map(str, s)) or "%"
def translate(ni, np_, nb):
    def dump(e):
        r = [ints(s) for s in e["il"]]
        for p in e["pl"]:
            if not p["on"]: r.append("~"); continue
            loop = ",".join("%d.%d" % (b, x) for b in range(nb) if not e["off"][b] for x in p["pt"][b])
            r.append("/".join(ints(s) for s in p["pt"]) + ":" + ints(p["bl"]) + "=" + loop + "=" + "/".join(",".join(map(str, s)) for s in p["pt"]))
        return " ".join(r) if ni else " " + " ".join(r)
    def tr(h):
        r = [("mkgrid 1 " + ",".join(["6x1x1"] * nb), "ok")]
        for e in h:
            r.append((" ".join([e["op"]] + [str(a) for a in e["args"]]), e["ret"]))
            r.append(("dumplp %d %d" % (ni, np_), dump(e)))
        return r
    return tr

def run(c):
    c.driver("asan")
    for name, cfg, par, kw in (
        ("integer lists, every transition", "int", (2, 0, 1), {}),
        ("box lists, every transition", "attr", (2, 0, 2), {}),
        ("point lists, every transition", "pts", (1, 1, 2), {}),
        ("copies of point lists, every transition", "dup", (1, 2, 2), {}),
        ("long lists (random)", "long", (3, 3, 3), dict(simulate=c.pick(100, 3000), depth=41, seed=c.seed, workers=1)),
        ("long histories (random)", "sim", (3, 3, 3), dict(simulate=c.pick(150, 5000), depth=81, seed=c.seed, workers=1))):
        r = c.tlc(name, "PointInt", cfg="PointInt_%s.cfg" % cfg, timeout=900, **kw)
        if cfg not in ("sim", "long"): r.items = tours(r.items)
        c.replay(name, r.items, translate(*par), variant="asan")

main("P14", run)
