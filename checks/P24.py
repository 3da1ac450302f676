import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
from urllib.parse import unquote
PAIRS = [("-1", "1"), ("0", "2"), ("-0.5", "1.5"), ("1", "1.25"), ("2", "3")]
BASES = ["ChebExtrema", "ChebZeros", "Fourier"]
KEYS = ["n1", "n2", "n3", "min1", "min2", "min3", "max1", "max2", "max3", "basis1", "basis2", "basis3"]
UPD = "sgrid_update_parameters.par"
NOREAD = "checkpoint finaltime iterations outdir parameterfile iterate_parameters checkpoint_no_read_parlist sgrid_options"
def grid(g, at):
    s = "nboxes=%d\n" % len(g)
    for b, x in enumerate(g):
        for d in range(3): s += "box%d_n%d=%d\nbox%d_basis%d=%s\nbox%d_min%d=%s\nbox%d_max%d=%s\n" % ((b, d + 1, x["n"][d], b, d + 1, BASES[x["basis"][d] - 1]) + sum(((b, d + 1, PAIRS[at[b][d] - 1][w]) for w in (0, 1)), ()))
    return s
def mono(op, v, m): return "%s:%s:%d:%d:%d:%d" % ((op, v, m["c"]) + tuple(m["e"]))
def parfile(x, outdir, P, g, at, funs):
    return ("physics=verif\nCoordinates_set_bfaces=no\noutdir=%s\ndt=0.5\niterations=%d\ncheckpoint=yes\ncheckpoint_additional_variables=u w\ncheckpoint_no_read_parlist=%s\nverif_quiet=yes\nverif_vars=u w temp1\n%s%sverif_funs=%s\n"
            % (outdir, 1 if outdir == "a" else 0, " ".join([NOREAD] + sorted(x["noread"])), "".join("%s=%s\n" % (k, v) for k, v in sorted(P.items())), grid(g, at), " ".join(funs)))
def num(s): return float(s)
def boxline(b, x, at): return lambda line: box_is(line, b, x, at)
def box_is(line, b, x, at):
    t = line.split("|"); h = [int(k) for k in t[0].split()[1:]]
    if h != [b] + x["n"]: return "box %d has %s points, not %s" % (b, h[1:], x["n"])
    bb = [float(k) for k in t[1].split()]; e = [float(PAIRS[at[d] - 1][w]) for d in range(3) for w in (0, 1)]
    if bb != e: return "box %d extends over %s, not %s" % (b, bb, e)
    X = [float(k) for k in t[2].split()]
    for d in range(3):
        lo, hi, n = e[2 * d], e[2 * d + 1], x["n"][d]
        import math
        k = x["basis"][d]
        if k == 1: a, z = lo, hi
        elif k == 2: a = 0.5 * ((lo - hi) * math.cos(0.5 * math.pi / n) + lo + hi); z = lo + hi - a
        else: a, z = lo, lo + (hi - lo) * (n - 1) / n
        if abs(X[2 * d] - a) > 1e-12 or abs(X[2 * d + 1] - z) > 1e-12: return "the points of box %d extend over %s, not %s" % (b, X[2 * d:2 * d + 2], [a, z])
def diffline(want):
    def p(line):
        got = {}
        for t in line.split(" ")[1:]:
            k, _, v = t.partition("="); got[k] = unquote(v)
        if got != want: return "parameters changed to %s instead of %s" % (got, want)
    return p
def quote(v): return v.replace("=", "~").replace(" ", "^")
def translate(e):
    x, r, before = e["conf"], [("sandbox", None)], []
    other = any(h["op"] == "interp" for h in e["hist"]); fs = 0
    if other:
        x.setdefault("noread", [])
        f = ["INITIALDATA/fa/on:u+on:w+" + "".join("set:%s:%s+" % (n, quote(w)) for n, w in sorted(x["oP"].items())) + "+".join(mono("mono", v, x["oF"][v]) + ":b" for v in "uw")]
        r += [("mkfile a.par " + enc(parfile(dict(x, noread=[]), "a", {}, x["o"], [b["at"] for b in x["o"]], f)), None), ("run - a.par", "exit 0"), ("hexdir a", lambda line: before.append(line))]
    at = [list(a) for a in x.get("at0", [b["at"] for b in x["g"]])]; pat = at; P = dict(x["P"]); F = dict(x["F"])
    f = ["INITIALDATA/fb/on:u+on:w+on:temp1+" + "+".join(mono("mono", v, F[v]) + ":b" for v in "uw")]
    want = []; ends = False
    for k, h in enumerate(e["hist"]):
        o, a = h["op"], h["a"]; act = ["snap", "keep:u:0", "keep:w:1"]; ex = []; diff = {}
        if o == "set": act.append("set:%s%s" % (a["x"], ":" + quote(a["v"]) if a["v"] else ""))
        elif o == "place":
            fs += 1; t = "\n".join(a["text"]) + ("\n" if a["nl"] and a["text"] else "")
            r.append(("mkfile u%d %s" % (fs, enc(t) or "%"), None)); act.append("use:u%d:%s" % (fs, UPD)); ex.append("use 0")
        elif o == "update": act.append("update"); ex.append("update %d" % h["ret"])
        elif o == "write": act.append("curpars"); ex += ["curpars 0", "cur ok"]
        elif o == "reuse": act.append("mvout:sgrid_current_parameters.par:" + UPD); ex.append("mvout 0")
        elif o == "refill": F[a["v"]] = h["F"][a["v"]]["m"]; act.append(mono("mono", a["v"], F[a["v"]]) + ":b")
        elif o == "interp":
            act.append("interp:a/checkpoint.0:%s:%s" % (",".join(sorted(a["vs"])) or "%", ",".join(sorted(a["ps"])) or "%"))
            if h["ret"]: ends = True
            else:
                ex.append("interp")
        if not ends and h["at"] != pat and other:
            for b in range(len(pat)):
                for d in range(3):
                    for w in (0, 1):
                        q = PAIRS[h["at"][b][d] - 1][w]
                        if q != PAIRS[pat[b][d] - 1][w]: diff["box%d_%s%d" % (b, ("min", "max")[w], d + 1)] = q
            pat = h["at"]
        if o == "interp" and not ends: at = pat
        for n in h["P"]:
            if h["P"][n] != P[n]: diff[n] = h["P"][n]
        P = dict(h["P"])
        if not ends:
            act.append("diff"); ex.append(diffline(diff))
            for v, q in (("u", 0), ("w", 1)):
                changed = o == "refill" and a["v"] == v or o == "interp" and v in a["vs"]
                if o == "interp" and v in a["vs"]: act.append(mono("isit", v, h["F"][v]["m"])); ex.append("isit %s yes" % v)
                elif not changed: act.append("kept:%s:%d" % (v, q)); ex.append("kept %s 1" % v)
            act.append("out:" + UPD); ex.append((lambda present: lambda line: None if (not line.endswith(" ~")) == present else "the file of updates is %sthere" % ("not " if present else "still "))(h["upd"]))
            if o == "interp":
                act.append("when"); ex.append("when 0 0")
                for b, bx in enumerate(x["g"]): act.append("box:%d" % b); ex.append(boxline(b, bx, at[b]))
        f.append("POST_INITIALDATA/f%d/%s" % (k, "+".join(act))); want.append((k, o, a, ex))
    total = [y for w in want for y in ((w[0], w[1], w[2], q) for q in w[3])]
    def pred(line):
        t = line.split(";")
        if not ends and t[0] != "exit 0": return "run ends with %s" % t[0]
        if ends and t[0] != "exit 1": return "reading a checkpoint with another number of boxes ends with %s" % t[0]
        if len(t) - 1 != len(total): return "%d events instead of %d: %s" % (len(t) - 1, len(total), line[-300:])
        for got, (k, o, a, q) in zip(t[1:], total):
            m = (None if got == q else "%s instead of %s" % (got, q)) if isinstance(q, str) else q(got)
            if m: return "operation %d (%s %s): %s" % (k + 1, o, a, m)
    r += [("mkfile b.par " + enc(parfile(x, "b", x["P"], x["g"], x.get("at0", [b["at"] for b in x["g"]]), f)), None), ("run - b.par", pred)]
    if other: r.append(("hexdir a", lambda line: None if [line] == before else "the output of the other run has changed"))
    return r
def manip(e):
    m, h = e["conf"], e["hist"][0]; s = "physics=verif ParManipulator\nCoordinates_set_bfaces=no\noutdir=b\niterations=0\ncheckpoint=no\ndt=0.75\nverif_quiet=yes\nnboxes=%d\n" % m["nb"]
    for k, v in zip(KEYS, m["glob"]): s += "%s=%s\n" % (k, v)
    for b, box in enumerate(m["box"]):
        for k, v in zip(KEYS, box): s += "box%d_%s=%s\n" % (b, k, v["x"])
    s += "ParManipulator_dt_scaling=%s\nParManipulator_ds_min_coeff=%d\nParManipulator_dtfac=%g\nParManipulator_requiredtime=%d\n" % (m["scal"], m["coeff"], m["fac4"] / 4.0, m["time"])
    s += "verif_funs=POST_PARAMETERS/s/snap POST_GRID/d/diff+num:dt+%s\n" % "+".join("box:%d" % b for b in range(m["nb"]))
    def pred(line):
        t = line.split(";")
        if h["ends"]: return None if t[0] == "exit 1" and len(t) == 1 else "a scaling it does not know: %s" % line[:200]
        if t[0] != "exit 0" or len(t) != 3 + m["nb"]: return line[:300]
        got = {}
        for w in t[1].split(" ")[1:]:
            k, _, v = w.partition("="); got[k] = unquote(v)
        want = {"box%d_%s" % (b - 1, KEYS[k - 1]): h["after"][b - 1][k - 1] for b, k in h["changed"]}
        dt = got.pop("dt", None); got.pop("ParManipulator_ds_min", None)
        if got != want: return "parameters changed to %s instead of %s" % (got, want)
        d = float(t[2].split()[2]); w = 0.75 if m["scal"] == "no" else h["dt"][0] / h["dt"][1]
        if abs(d - w) > 1e-14 * w: return "dt is %.17g instead of %.17g" % (d, w)
        for b in range(m["nb"]):
            g = h["gets"][b]; u = t[3 + b].split("|"); n = [int(k) for k in u[0].split()[2:]]
            if n != [int(k) for k in g[:3]]: return "box %d has %s points, not %s" % (b, n, g[:3])
            e2 = [float(g[3 + k // 2 + 3 * (k % 2)]) for k in range(6)]
            if [float(k) for k in u[1].split()] != e2: return "box %d extends over %s, not %s" % (b, u[1], e2)
    return [("sandbox", None), ("mkfile b.par " + enc(s), None), ("run - b.par", pred)]
def run(c):
    r = c.tlc("every history of three operations on parameter files", "Utils", cfg="Utils_pars.cfg", consts={"Depth": c.pick("3", "4")}, timeout=900)
    c.replay("every history of three operations on parameter files", r.items, translate, tmo=60, jobs=8)
    for k in range(c.pick(1, 4)):
        r = c.tlc("parameter files and checkpoints of other grids %d" % k, "Utils", cfg="Utils_mix_rnd.cfg", simulate=c.pick(800, 6000), depth=12, seed=24 + k + 1000 * c.seed, workers=1, timeout=900)
        c.replay("parameter files and checkpoints of other grids %d" % k, r.items, translate, tmo=60, jobs=8, variant=c.pick("plain", "asan") if k == 1 else "plain")
        r = c.tlc("parameters that stand for others %d" % k, "Utils", cfg="Utils_manip_rnd.cfg", simulate=c.pick(1000, 8000), depth=3, seed=24 + k + 1000 * c.seed, workers=1, timeout=900)
        c.replay("parameters that stand for others %d" % k, r.items, manip, tmo=60, jobs=8)
main("P24", run)
