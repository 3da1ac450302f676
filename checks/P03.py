import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
GET = "verif_p verif_q verif_r iterations outdir outdir_previous_iteration".split()
def listpar(p): return ["iterate_parameter%d=%s" % (k + 1, " ".join([l["name"]] + list(l["vals"]))) for k, l in enumerate(p["lists"])]
def parfile(p):
    return ("physics=verif\nnboxes=1\nbox0_n1=2\nbox0_n2=2\nbox0_n3=2\ncheckpoint=no\nverif_quiet=yes\nverif_p=pf\nverif_r=rf\niterations=%d\n" % p["n"] +
            "verif_funs=POST_PARAMETERS/f/%s PRE_FINALIZE_GRID/l/log:log\n" % "+".join("get:" + n for n in GET) +
            ("iterate_parameters=yes\n" if p["on"] else "") + ("" if p["opt"] else "".join(x + "\n" for x in listpar(p))))
def dirs(want):
    def f(line):
        t = {x.split("=", 1)[0] if "=" in x else x: x.split("=", 1)[1] if "=" in x else "" for x in line.split(" ")}
        got = {}
        for n in t:
            if n.endswith("/"): got[n[:-1]] = [x.split(".it")[0] for x in t.get(n + "log", "").replace("%3b", ";").split(";") if x]
        if set(got) != set(want): return "directories %s, the specification says %s" % (sorted(got), sorted(want))
        for n in want:
            if [x.rsplit(".", 1)[0] for x in got[n]] != want[n]: return "directory %s was written by runs with verif_p = %s, the specification says %s" % (n, got[n], want[n])
    return f
def translate(h):
    r = [("sandbox", None)]; have = []
    for e in h:
        if e["end"] == "clean":
            r += [("rmtree " + enc(n), None) for n in have]; have = []
            continue
        p = e["p"]
        exp = ";".join([e["end"]] + ["get %s=%s" % (n, x[k]) for x in e["runs"] for n, k in zip(GET, ("p", "q", "r", "n", "out", "before"))])
        r.append(("mkfile a.par " + enc(parfile(p)), None))
        r.append(("run - a.par" + "".join(" " + enc("--modify-par:" + x) for x in (listpar(p) if p["opt"] else [])) + (" --keep_previous" if p["keep"] else ""), exp))
        want = e["dirs"] if isinstance(e["dirs"], dict) else {}
        r.append(("tree", dirs(want))); have = sorted(want)
    return r
def run(c):
    for name, cfg, kw in (("every two programs with one or two lists", "pairs", {}),
                          ("random programs after each other", "rnd", dict(simulate=c.pick(3000, 60000), depth=300, seed=c.seed, workers=1))):
        r = c.tlc(name, "Scan", cfg="Scan_%s.cfg" % cfg, timeout=900, **kw)
        c.replay(name, r.items, translate, tmo=60, jobs=8)
main("P03", run)
