import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
FAMS = {1: "%", 2: "q", 3: "i", 6: "(ij)"}
def shape(n, k): return ("%dx1x1", "1x%dx1", "1x1x%d")[k % 3] % n
def dump(e):
    r = ["%d" % e["en"]]
    for g in e["g"]:
        if not g["on"]: r.append("~"); continue
        bs = []
        for b in g["box"]:
            bs.append("%d:" % b["off"] + ";".join(",".join(map(str, v)) if v else "-" for v in b["v"]))
        r.append("%d %d %d 1 %s" % (g["n"], g["iter"], sum(b["off"] for b in g["box"]), " ".join(bs)))
    return " | ".join(r)
def translate(shapes, fams):
    def tr(h):
        r = []; n = 0
        for k, c in enumerate(fams):
            r.append(("addvar W%d %s d" % (k, FAMS[c]), "ok"))
        mk = lambda k: ("mkgrid %d " % k + ",".join(shape(s, j) for j, s in enumerate(shapes)), "ok")
        r.append(mk(1))
        for e in h:
            a = [",".join(map(str, x)) or "%" if isinstance(x, list) else str(x) for x in e["args"]]
            if e["op"] == "mkgrid": r.append(mk(int(a[0])))
            elif e["op"] == "dupenable":
                c, nv = e["args"][2:4]
                r.append(("dupenable " + " ".join(a), ",".join(map(str, range(nv, nv + c)))))
            else: r.append((e["op"] + " " + " ".join(a), e["ret"]))
            s = [str(x) for g in e["g"] if g["on"] for x in g["set"]]
            r.append(("dumpsto %d %s" % (len(e["g"]), ",".join(s) or "%"), dump(e)))
        return r
    return tr

def run(c):
    c.driver("asan")
    A, B = [1, 1], [2, 1, 3]
    for name, cfg, sh, fa, kw in (
        ("one grid, every transition", "one", A, [1, 2], {}),
        ("two grids and copies, every transition", "two", A, [1], dict(consts={"Groups": '{"make", "add", "var", "write", "copy"}'}) if c.quick else {}),
        ("two grids with a switched off box", "two", A, [1], dict(consts={"Groups": '{"make", "var", "write", "copy", "off1"}', "MaxVars": 1})),
        ("active boxes, every transition", "act", None, None, {}),
        ("long histories (random)", "sim", B, [1, 3, 1, 2], dict(simulate=c.pick(60, 3000), depth=61, seed=c.seed, workers=1))):
        r = c.tlc(name, "Storage", cfg="Storage_%s.cfg" % cfg, timeout=900, **kw)
        if cfg == "act": sh, fa = A, [1]
        if cfg != "sim":
            init = json.loads(json.dumps(r.items[0]["f"]))
            r.items = tours(r.items)
        c.replay(name, r.items, translate(sh, fa), variant="asan")

main("P08", run)
