import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def ints(s): return ",".join(map(str, s)) or "%"
def ofi(o):
    s = o["S"]
    if o["k"] == "none": return -1
    if o["k"] == "one": return s[0]
    return -sum(1 << (j + 1) for j in s)
def face(x):
    return "%d:%d:%d:%d%d%d:%s" % (x["f"], x["ob"], ofi(x["ofi"]), x["outer"], x["snd"], x["touch"], ints(x["pts"]) if x["has"] else "~")
def dump(e): return " | ".join(" ".join(";".join(face(x) for x in b) or "%" for b in k) for k in e["g"])
def translate(ng, nb, shape, kinds):
    def tr(h):
        r = []
        for k in range(1, ng + 1):
            r.append(("mkgrid %d " % k + ",".join([shape] * nb), "ok"))
            for b in range(nb): r.append(("bfkind %d %d %d %d" % (k, b, *kinds[b]), "ok"))
        for e in h:
            a = [ints(x) if isinstance(x, list) else str(x) for x in e["args"]]
            ret = e["ret"] if e["op"] != "bfneigh" else ints(e["ret"][0]) + " " + ints([77] + e["ret"][1])
            r.append((" ".join([e["op"]] + a), ret))
            r.append(("bfdump %d" % ng, dump(e)))
        return r
    return tr
KC = [(0, 0)] * 2
KD = [(0, 1), (1, 0), (2, 4), (3, 1), (4, 5), (5, 5)]
def crowd(c):
    """one face that meets more faces than a number has bits: every representable one is noted, the rest is flagged"""
    b = []
    for n, m in ((2, 0), (29, 0), (30, 0), (31, 0), (32, 0), (33, 0), (40, 0), (64, 0), (70, 0), (40, 30), (35, 31), (35, 32), (36, 33), (33, 1)):
        h = [("mkgrid 1 2x1x1,2x1x1", "ok"), ("bfadd 1 0 0", "0"), ("bfother 1 0 0 1", "ok")]
        for j in range(n): h += [("bfadd 1 1 0", str(j))] + ([("bfother 1 1 %d 0" % j, "ok")] if j >= m else [])
        h.append(("bfnumber 1", "0"))
        def want(line, n=n, m=m):
            x = int(line.split(" ")[0].split(":")[2])
            bits = sum(1 << (j + 1) for j in range(m, min(n, 30)))
            if x >= -1: return "ofi of the face is %d" % x
            if n <= 30: return None if x == -bits else "ofi should be %d" % -bits
            if not bits: return None if x == -3 else "no face fits: ofi is %d, should be -3" % x
            return None if (-x) & 1 and (-x) | 1 == bits | 1 else "faces that do not fit are not flagged: ofi is %d, should be %d" % (x, -(bits | 1))
        h.append(("bfdump 1", want)); b.append(h)
    c.replay("many faces", b, lambda h: h, variant="asan")

def run(c):
    c.driver("asan")
    for name, cfg, par, kw in (
        ("faces of a box, every transition", "one", (1, 1, "2x1x1", KC), {}),
        ("numbers and pairs, every transition", "pair", (1, 2, "2x1x1", KC), dict(consts={"Groups": '{"add", "link", "number", "ask", "switch"}'}) if c.quick else {}),
        ("flags, every transition", "flags", (1, 2, "2x1x1", KC), {}),
        ("copies, every transition", "copy", (2, 1, "2x1x1", KC), {}),
        ("long histories (random)", "sim", (2, 6, "3x2x4", KD), dict(simulate=c.pick(100, 5000), depth=61, seed=c.seed, workers=1))):
        r = c.tlc(name, "Faces", cfg="Faces_%s.cfg" % cfg, timeout=900, **kw)
        if cfg != "sim": r.items = tours(r.items)
        c.replay(name, r.items, translate(*par), variant="asan")
    crowd(c)

main("P15", run)
