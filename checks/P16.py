import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
BASIS = {"c": "ChebExtrema", "f": "Fourier"}
OPT = {"order0": "setnormalderiv_order0", "populate": "populate_bfaces", "same": "none"}
def parfile(a, file):
    o = a["opt"]
    s = "physics=verif\nnboxes=%d\ndt=1\niterations=0\ncheckpoint=no\nverif_vars=u\nCoordinates_verbose=no\n" % len(a["boxes"])
    s += "Coordinates_bface_options=%s\n" % OPT.get(o, "setnormalderiv_" + o)
    if o == "same": s += "Coordinates_set_bfaces=no\n"
    for b, x in enumerate(a["boxes"]):
        s += "box%d_Coordinates=Cartesian\n" % b
        for d in range(3):
            s += "box%d_n%d=%d\nbox%d_min%d=%d\nbox%d_max%d=%d\nbox%d_basis%d=%s\n" % (b, d + 1, x["n"][d], b, d + 1, x["lo"][d], b, d + 1, x["hi"][d], b, d + 1, BASIS[x["basis"][d]])
    return s + "verif_funs=INITIALDATA/t/faces:%s%s\n" % (file, ":same:%d:%d" % (a["b0"], len(a["boxes"]) - a["b0"]) if o == "same" else "")
def cubefile(a, file):
    n = a["b0"] + a["kind"]
    s = "physics=verif\nnboxes=%d\ndt=1\niterations=0\ncheckpoint=no\nverif_vars=u\nCoordinates_verbose=no\nn1=%d\nn2=%d\nn3=%d\n" % ((n,) + tuple(a["n"]))
    s += "Coordinates_bface_options=setnormalderiv_%s\n" % a["opt"]
    for b in range(a["b0"]):
        for d in (1, 2, 3): s += "box%d_min%d=%d\nbox%d_max%d=%d\nbox%d_basis%d=ChebExtrema\n" % (b, d, 100 + 20 * b, b, d, 103 + 20 * b, b, d)
    for b in (a["b0"], a["b0"] + 13)[:1 + (a["kind"] > 13)]: s += "".join("box%d_n%d=%d\n" % (b, d, a["n"][1]) for d in (1, 2, 3))
    return s + "verif_funs=PRE_COORDINATES/c/cubes:%d:%s INITIALDATA/t/faces:%s\n" % (a["b0"], ":".join("%.17g" % (a[k] / 8.) for k in ("dc", "din1", "dmid1", "din2", "dmid2", "r0", "r1")), file)
def record(a, r):
    """what the code made of an arrangement, as the specification reads it"""
    t = dict(b0=a["b0"] if a["opt"] == "same" else 0, alg={"populate": "ar", "same": "same"}.get(a["opt"], "wt"), lat="boxes" in a, conf=a["conf"], over=a["over"], boxes=[], faces=[], xyz=[[round(1000 * x) for x in p] for p in r["xyz"]])
    for b, x in enumerate(r["boxes"]):
        t["boxes"].append(dict(n=x["n"], at=x["at"], per=x["per"], lo=a["boxes"][b]["lo"] if t["lat"] else [0] * 3, hi=a["boxes"][b]["hi"] if t["lat"] else [0] * 3))
    for fs in r["faces"]: t["faces"].append([dict(e, ob=e["ob"] + 1) for e in fs])
    return t
def judge(c, name, arrs, pars, rec, outside=None):
    """run the arrangements in the real code and have TLC judge the records"""
    files = [os.path.join(c.outdir, "%s%d.json" % (name.split()[0], k)) for k in range(len(arrs))]
    for f in files:
        if os.path.exists(f): os.remove(f)
    end = {}
    def translate(k):
        def keep(line, k=k): end[k] = line
        return [("sandbox", None), ("mkfile a.par " + enc(pars(arrs[k], files[k])), None), ("run - a.par", keep)]
    c.replay(name, list(range(len(arrs))), translate, tmo=120, jobs=8, sample=False)
    tr, src = [], []; refused = 0; bad = 0
    for k, a in enumerate(arrs):
        if not os.path.exists(files[k]):
            refused += 1
            if outside and outside(a, end.get(k, "")): continue
            bad += 1
            if bad <= 3: c.violation("%s: no faces made, the run ended with %s for %s" % (name, end.get(k, "?")[:200], json.dumps(a)[:600]), dict(arrangement=a))
            continue
        tr.append(rec(a, json.load(open(files[k])))); src.append(k); os.remove(files[k])
    p = os.path.join(c.outdir, name.split()[0] + ".ndjson")
    with open(p, "w") as f:
        for x in tr: f.write(json.dumps(x) + "\n")
    v = c.tlc("records of " + name, "Touch", cfg="Touch_check.cfg", env={"TRACES": p}, timeout=900)
    fate = {x["t"]: x["bad"] for x in v.items}; n = 0
    for i, k in enumerate(src):
        z = fate.get(i + 1)
        if z == []: continue
        n += 1
        if n <= 5: c.violation("%s: %s for %s" % (name, json.dumps(z)[:300] if z is not None else "not judged", json.dumps(arrs[k])[:700]), dict(arrangement=arrs[k], record=tr[i], bad=z))
    c.validated += len(tr)
    if tr: i = c.seed % len(tr); c.samples.append(dict(check=name, arrangement=arrs[src[i]], faces=tr[i]["faces"]))
    c.log("%s: %d records judged, %d refused, %d arrangements without faces" % (name, len(tr), n, refused))
def run(c):
    g = c.tlc("small arrangements", "Touch", cfg="Touch_small.cfg", timeout=600)
    judge(c, "small arrangements", c.pick(g.items[c.seed % 5::5], g.items), parfile, record)
    for name in ("product", "random"):
        g = c.tlc(name + " arrangements", "Touch", cfg="Touch_%s.cfg" % name, consts={"Many": c.pick(200, 3000)}, seed=16 + 1000 * c.seed, workers=1, timeout=900)
        judge(c, name + " arrangements", g.items, parfile, record)
    g = c.tlc("curved boxes", "Touch", cfg="Touch_cubes.cfg", consts={"Many": c.pick(24, 300)}, seed=16 + 1000 * c.seed, workers=1, timeout=900)
    judge(c, "curved boxes", g.items, cubefile, record)
main("P16", run)
