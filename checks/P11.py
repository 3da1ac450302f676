import os, sys, math, re, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
import runs
num8 = lambda t: runs.num(t, 8)
SIZES = [(3, 4, 2), (2, 3, 5)]
BBOX = [[(0, 3), (-1, 2), (1, 5)], [(3, 4.5), (-2, 7), (0, 0.25)]]
VARS = ["u", "wx", "wy", "wz", "sxx", "sxy", "sxz", "syy", "syz", "szz", "k", "cx", "cy", "cz", "q", "p"]
ID = {v: k + 1 for k, v in enumerate(VARS)}
F32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
def coord(b, d, i, sizes, bbox):
    lo, hi = bbox[b][d]; n = sizes[b][d]
    return 0.5 * (lo + hi) - 0.5 * (hi - lo) * math.cos(math.pi * i / (n - 1))
def val(v, it, b, i): return (((ID[v] * 8 + it) * 2 + b) * 64 + i) * (-1 if i % 3 == 1 else 1)
def index(n, p): return p[0] + n[0] * (p[1] + n[1] * p[2])
def words(w, c):
    if c["blanks"] == 1: return "^".join(w)
    return ("^" if c["blanks"] == 3 else "") + "^^".join(w) + ("^" if c["blanks"] == 3 else "")
def setup(c):
    sizes, bbox = SIZES, BBOX
    if c["mono"]:
        m = c["mono"][0]; sizes = [(6, 6, 6), (6, 5, 7)]; bbox = [[(0, x) for x in m["x"]]] * 2
    s = "physics=verif\nnboxes=2\n"
    for b in range(2):
        s += "box%d_Coordinates=Cartesian\n" % b
        for d in range(3):
            lo, hi = bbox[b][d]
            s += "box%d_n%d=%d\nbox%d_min%d=%.17g\nbox%d_max%d=%.17g\nbox%d_basis%d=ChebExtrema\n" % (b, d + 1, sizes[b][d], b, d + 1, lo, b, d + 1, hi, b, d + 1)
            i = c["at"][b][d]; side = c["side"][b][d]; n = sizes[b][d]
            x = coord(b, d, i, sizes, bbox)
            x += 0.3 * (coord(b, d, i + side, sizes, bbox) - x) if 0 <= i + side < n else side
            s += "output%s0_box%d=%.17g\n" % ("XYZ"[d], b, x)
    s += "dt=%s\niterations=%d\ncheckpoint=no\n0doutput_normtype=%s\n" % (num8(c["dt"]), c["n"], c["norm"])
    P = c["par"]; s += "outputall=%s\n3dformat=%s\n" % ("yes" if P["all"] else "no", " ".join(sorted(P["fmt"])))
    acts = []
    for d in range(4):
        o = P["d"][d]
        s += "%ddoutiter=%d\n%ddouttime=%s\n%ddoutputall=%s\n" % (d, o["di"], d, num8(o["dT"]), d, "yes" if o["all"] else "no")
        if c["blanks"] == 1: s += "%ddoutput=%s\n" % (d, " ".join(o["words"]))
        elif o["words"]: acts.append("set:%ddoutput:%s@0" % (d, words(o["words"], c)))
    for x in c["set"]:
        if x["what"] == "di": acts.append("set:%ddoutiter:%d@%d" % (x["d"] - 1, x["v"], x["it"]))
        elif x["what"] == "words": acts.append("set:%ddoutput:%s@%d" % (x["d"] - 1, words(x["words"], c), x["it"]))
        else: acts.append("set:%ddoutputall:%s@%d" % (x["d"] - 1, "yes" if x["v"] else "no", x["it"]))
    q = c["quick"]
    quick = ["quick:%s:%s:%d@%d" % ("^".join(q["words"]) or "%", num8(q["ft"]), q["fi"], q["it"])] if q["it"] >= 0 else []
    fill = ["fill:%s:%d" % (v, ID[v]) for v in VARS]
    if c["mono"]: m = c["mono"][0]; fill = ["mono:u:%d:%d:%d:%d" % (m["c"], *m["p"])]
    s += "verif_vars=u w/i s/(ij) !k !c/i zz q p\nverif_quiet=yes\n"
    s += "verif_funs=INITIALDATA/i/on:u+on:wx+on:sxx+on:k+on:cx+onb:p:1 "
    s += "ANALYZE/a/%s ANALYZE/b/%s ANALYZE/c/%s\n" % ("on:q@%d+off:q@%d" % (c["qon"], c["qoff"]) if c["qon"] < c["qoff"] else "", "+".join(fill), "+".join(acts + quick))
    return s, sizes, bbox
class Bad(Exception): pass
def close(a, b, tol=1e-11, scale=1.0): return a == b or abs(a - b) <= tol * max(abs(a), abs(b), scale)
def need(c, *what):
    if not c: raise Bad(" ".join(str(x) for x in what))
def raw(data, n, fmt, what, stride=1):
    """n numbers in vtk's format -> list, rest"""
    if "text" in fmt:
        r = []
        for k in range(n):
            line, _, data = data.partition(b"\n"); t = line.split(); need(len(t) == stride, what, "row of", len(t), "numbers")
            r += [float(x) for x in t]
        return r, data
    f, w = (">d", 8) if "double" in fmt else (">f", 4)
    need(len(data) >= n * w * stride, what, "is too short")
    return [struct.unpack(f, data[w * k: w * k + w])[0] for k in range(n * stride)], data[w * n * stride:]
def vtk(data, r, n, xyz, b, sizes, bbox, where):
    """judge one vtk file"""
    N = n[0] * n[1] * n[2]; fmt = r["fmt"]; dbl = "double" in fmt; typ = "double" if dbl else "float"; text = "text" in fmt; fake = "fakepoints" in fmt
    fmt = [typ] + (["text"] if text else [])
    cv = (lambda x: x) if dbl else F32
    tol = 1e-11 if dbl else 3e-7
    lines = []
    def line(skip=True):
        nonlocal data
        while True:
            l, _, data = data.partition(b"\n")
            if l.strip() or not skip: return l.decode("latin1")
            need(data, where, "ends early")
    need(line().startswith("# vtk DataFile Version"), where, "has no vtk header")
    l = line(); m = re.search(r"variable (\S+), box (\d+), time ([-+.e0-9]+)", l)
    need(m and m.group(1) == r["v"] and int(m.group(2)) == b and close(float(m.group(3)), r["t"] / 8.0), where, "title", l)
    need(line() == ("ASCII" if text else "BINARY"), where, "data mode")
    ds = line(); kind = "STRUCTURED_POINTS" if fake else "STRUCTURED_GRID" if r["k"] == "vtkxyz" else "RECTILINEAR_GRID"
    need(ds == "DATASET " + kind, where, ds)
    dim = [int(x) for x in line().split()[1:]]
    need(dim == ([N, 1, 1] if fake and "arrange_as_1d" in r["fmt"] else list(n)), where, "dimensions", dim)
    if fake: need(line().startswith("ORIGIN") and line().startswith("SPACING"), where, "origin, spacing")
    elif kind == "STRUCTURED_GRID":
        need(line().split() == ["POINTS", str(N), typ], where, "POINTS")
        x, data = raw(data, N, fmt, where, 3)
        for i in range(N):
            p = (i % n[0], i // n[0] % n[1], i // n[0] // n[1])
            for d in range(3): need(close(x[3 * i + d], cv(coord(b, d, p[d], sizes, bbox)), tol), where, "point", p, x[3 * i: 3 * i + 3])
    else:
        for d in range(3):
            need(line().split() == ["XYZ"[d] + "_COORDINATES", str(n[d]), typ], where, "coordinates", d)
            x, data = raw(data, n[d], fmt, where)
            for i in range(n[d]): need(close(x[i], cv(coord(b, d, i, sizes, bbox)), tol), where, "coordinate", d, i, x[i])
    need(line() == "POINT_DATA %d" % N, where, "POINT_DATA")
    l = line().split(); need(l[0] == "SCALARS" and l[2] == typ, where, l)
    need(line().startswith("LOOKUP_TABLE"), where, "LOOKUP_TABLE")
    x, data = raw(data, N, fmt, where)
    need(not data.strip(), where, "has more data than", N, "numbers")
    for i in range(N): need(x[i] == cv(float(val(r["v"], r["it"], b, i))), where, "value at point", i, "is", x[i], "not", val(r["v"], r["it"], b, i))
def judge(b, sizes, bbox):
    c = b["cfg"]; recs = b["files"]; red = b["reduced"]
    expect = {}
    for r in recs:
        o = ".%s%d" % (r["k"], r["b"])
        f = "%s_%s.%d" % (r["v"], r["k"], r["b"]) if r["k"] in ("max", "min", "rms", "meanAbs", "mean", "VolInt") else \
            "%s.XYZ%d" % (r["v"], r["b"]) if r["k"] == "dump" else \
            "%s.%s%d_vtk/%s.%s%d_%08d.vtk" % ((r["v"], "xyz" if r["k"] == "vtkxyz" else "XYZ", r["b"]) * 2 + (r["n"],)) if r["k"].startswith("vtk") else "%s.%s%d" % (r["v"], r["k"], r["b"])
        expect.setdefault(f, []).append(r)
    # an output asked for by hand writes the same file again
    for f in expect:
        if f.endswith(".vtk"): expect[f] = expect[f][-1:]
    def check(lines):
        got = {}
        for t in lines.split():
            f, _, h = t.partition(":")
            if f in ("a.par",) or f.startswith(("stdout", "std")): continue
            got[f] = bytes.fromhex(h)
        need(not set(expect) - set(got), "missing:", sorted(set(expect) - set(got))[:5])
        need(not set(got) - set(expect), "written but not due:", sorted(set(got) - set(expect))[:5])
        for f, rs in expect.items():
            data = got[f]; bx = rs[0]["b"]; n = sizes[bx]; N = n[0] * n[1] * n[2]; k = rs[0]["k"]
            if k in ("max", "min", "rms", "meanAbs", "mean", "VolInt"):
                rows = [l.split() for l in data.decode().splitlines() if l.strip()]
                need(len(rows) == len(rs), f, "has", len(rows), "records, due are", len(rs))
                for row, r in zip(rows, rs):
                    need(len(row) == 2 and close(float(row[0]), r["t"] / 8.0), f, "record", row, "for time", r["t"] / 8.0)
                    y = float(row[1])
                    if red:
                        e = red[0]; x = e[k][0] / e[k][1] if k != "rms" else math.sqrt(e["square"][0] / e["square"][1])
                        need(close(y, x, 1e-9, abs(e["max"][0]) + abs(e["min"][0]) + abs(x)), f, y, "not", x)
                    else:
                        v = [val(r["v"], r["it"], bx, i) for i in range(N)]
                        x = {"max": max(v), "min": min(v), "rms": None}.get(k, math.sqrt(sum(a * a for a in v) / N))
                        if x is not None: need(close(y, x, 1e-12), f, "at time", r["t"] / 8.0, "holds", y, "not", x)
            elif k == "dump":
                for r in rs:
                    l, _, data = data.partition(b"\n"); l = l.decode("latin1")
                    need("time = " in l, f, "record without header:", repr(l[:100]))
                    nums = dict(re.findall(r"(n1|n2|n3|N|time) ?= ?([-+.e0-9]+)", l))
                    need(close(float(nums["time"]), r["t"] / 8.0), f, l, "for time", r["t"] / 8.0)
                    need([int(nums[x]) for x in ("n1", "n2", "n3", "N")] == list(n) + [N], f, l)
                    need(len(data) >= 4 * N + 2, f, "is too short")
                    x = struct.unpack("=%df" % N, data[:4 * N]); need(data[4 * N: 4 * N + 2] == b"\n\n", f, "no end of record"); data = data[4 * N + 2:]
                    for i in range(N): need(x[i] == F32(float(val(r["v"], r["it"], bx, i))), f, "point", i, "holds", x[i])
                need(not data, f, "has more records than are due")
            elif k.startswith("vtk"): vtk(data, rs[0], n, k == "vtkxyz", bx, sizes, bbox, f)
            else:
                groups = b["shapes"][str(bx)][k]; blocks = []
                for l in data.decode().splitlines():
                    if "time =" in l: blocks.append((l, [[]])); continue
                    need(blocks, f, "starts without a header")
                    if not l.strip():
                        if blocks[-1][1][-1]: blocks[-1][1].append([])
                    else: blocks[-1][1][-1].append([float(x) for x in l.split()])
                need(len(blocks) == len(rs), f, "has", len(blocks), "records, due are", len(rs), [x[0] for x in blocks][:8])
                for (h, g), r in zip(blocks, rs):
                    need(close(float(re.search(r"time = ([-+.e0-9]+)", h).group(1)), r["t"] / 8.0), f, h, "for time", r["t"] / 8.0)
                    fixed = dict((a, float(x)) for a, x in re.findall(r"\b([ijkXYZ])=([-+.e0-9]+)", h))
                    for d in range(3):
                        if "XYZ"[d] in k: need("ijk"[d] not in fixed, f, h); continue
                        at = c["at"][bx][d]
                        need(fixed.get("ijk"[d]) == at and close(fixed.get("XYZ"[d], 1e99), coord(bx, d, at, sizes, bbox)), f, h, "goes through", "ijk"[d], "=", at)
                    g = [x for x in g if x]
                    need([len(x) for x in g] == [len(x) for x in groups], f, "at time", r["t"] / 8.0, "has groups of", [len(x) for x in g], "rows, not", [len(x) for x in groups])
                    for gg, pp in zip(g, groups):
                        for row, p in zip(gg, pp):
                            e = [coord(bx, "XYZ".index(a), p["XYZ".index(a)], sizes, bbox) for a in k]
                            need(len(row) == len(e) + 1 and all(close(x, y) for x, y in zip(row, e)), f, "row", row, "for point", p, e)
                            need(row[-1] == val(r["v"], r["it"], bx, index(n, p)), f, "at", p, "holds", row[-1], "not", val(r["v"], r["it"], bx, index(n, p)))
        return None
    def pred(lines):
        try: return check(lines)
        except Bad as e: return str(e)
        except Exception as e: return "output cannot be read: %r" % e
    return pred
def translate(b):
    s, sizes, bbox = setup(b["cfg"])
    return [("sandbox", None), ("mkfile a.par " + enc(s), None), ("run - a.par", "exit 0"), ("hexdir a", judge(b, sizes, bbox))]
def run(c):
    for name, fam, kw in (("intervals of every dimension", "sched", {}), ("formats of 3d output", "format", {}), ("reductions of monomials", "norm", {}), ("lines and planes through every point", "pick", {}),
                          ("random runs", "random", dict(simulate=c.pick(2500, 60000), depth=40, seed=c.seed, workers=1))):
        r = c.tlc(name, "Output", cfg="Output_%s.cfg" % fam, timeout=900, **kw)
        c.replay(name, r.items, translate, tmo=60, jobs=8)
    # every record of a run must be found afterwards: output by iterations and by time share the numbers of the files
    r = c.tlc("3d files by iterations and by time", "Output", cfg="Output_both.cfg", timeout=900)
    out = drv.run_scripts(c.driver("plain"), [[x for x, _ in translate(b)] for b in r.items], tmo=60)
    for b, (lines, e) in zip(r.items, out):
        due = len(b["files"]); got = len([t for t in (lines[3] if len(lines) > 3 else "").split() if ".vtk:" in t]); c.validated += 1
        if got < due:
            c.violation("vtk files with 3doutiter=%d 3douttime=%s dt=%s: %d records due, %d files left" % (b["cfg"]["par"]["d"][3]["di"], num8(b["cfg"]["par"]["d"][3]["dT"]), num8(b["cfg"]["dt"]), due, got), dict(behaviour=b, observed=lines))
main("P11", run)
