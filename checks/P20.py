import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
def num(x): return "%d" % x
def sv(r): return ",".join("%d:%d" % tuple(e) for e in r) or "%"
def vec(e):
    n = e["n"]; rows = e["rows"]; cols = [[] for _ in range(n)]
    for r in range(n):
        for p, v in rows[r]: cols[p].append([r, v])
    get = [dict(map(tuple, r)).get(p, 0) for r in rows for p in range(n)]
    lst = lambda a: ",".join(map(num, a))
    def market(M, iscol):
        ent = [((p + 1, k + 1) if iscol else (k + 1, p + 1)) + (v,) for k, r in enumerate(M) for p, v in r]
        other = max([p for r in M for p, _ in r] + [0]) + 1
        size = (other, n) if iscol else (n, other)
        return "/".join(["0", "MatrixMarket_matrix_coordinate_real_general", "%d_%d_%d" % (size + (len(ent),))] + ["%d_%d_%d" % t for t in ent])
    tr = lst([sum(v * e["y"][q] for q, v in c) for c in cols])
    want = [";".join(map(sv, rows)), lst(get), lst(e["times"]), lst(e["left"]), lst(e["left"]), tr, market(rows, 0), market(cols, 1)]
    assert tr == lst(e["left"])
    for d in range(3):
        t = "%d@%s/%s" % (len(e["packed"][d]), lst(e["ap"][d]), ",".join("%d:%d" % (l, v) for l, _, v in e["packed"][d]) or "%")
        want += [t] * 4
    what = ["rows", "components", "matrix times vector", "vector times matrix", "transpose times vector", "columns as lines", "Matrix Market file of lines", "Matrix Market file of columns"] + \
           ["%s_matrix_from_%s dropping below %d" % (a, b, d) for d in range(3) for a in ("di", "dl") for b in ("lines", "columns")]
    return n, rows, e["y"], want, what
def tvec(es):
    r = []
    for e in es:
        n, rows, y, want, what = vec(e)
        def f(line, want=want, what=what):
            got = line.split(" ")
            for k, w in enumerate(want):
                g = got[k] if k < len(got) else "nothing"
                if k in (0, 1, 2, 3, 4, 5): g = g.replace(":-0", ":0"); g = ",".join("0" if t == "-0" else t for t in g.split(","))
                if "from_columns" in what[k] and "/" in g:      # any order within a column is the same matrix here
                    g = canon(g); w = canon(w)
                if g != w: return "%s: %s, not %s" % (what[k], g, w)
        r.append(("spvec %d %s %s" % (n, ";".join(map(sv, rows)).replace("%", "-"), ",".join(map(num, y))), f))
    return r
def canon(t):
    try:
        a, b = t.split("/"); n, ap = a.split("@"); ap = [int(x) for x in ap.split(",")]; en = [] if b == "%" else b.split(",")
        return repr((n, ap, [sorted(en[ap[k]:ap[k + 1]]) for k in range(len(ap) - 1)]))
    except Exception: return t
def shp(e): return ",".join("x".join(map(str, s)) for s in e["shape"])
def u(t): return "%d.%d.%d" % (t[0] - 1, t[1], t[2])
def tbuild(es):
    r = []
    for e in es:
        op = ",".join("%s:%s:%d" % (u(a), u(b), k) for a, b, k in e["op"]) or "%"
        s = e["sub"]; sub = ".".join(map(str, [s[0], s[1] - 1] + s[2:])) if s else "%"
        flat = lambda f: ",".join(str(x) for b in f for x in b)
        want = e["rows"]
        def f(line, want=want, how=e["how"]):
            w = line.split(" ", 1)
            if len(w) > 1: return w[1]
            got = [] if not want else [[] if t == "%" else [tuple(float(z) for z in q.split(":")) for q in t.split(",")] for t in w[0].split(";")]
            exp = [[tuple(map(float, q)) for q in row] for row in want]
            if how.startswith("lines"): got = [sorted(x) for x in got]
            if got != exp: return "stores %s, not %s" % (got, exp)
        r.append(("spbuild %s %d %d %d %d %s %s %s %s %s" % (e["how"], e["thr"], e["drop"], e["nv"], len(want), shp(e), op, flat(e["c"]), flat(e["d"]), sub), f))
    return r
def tsolve(es):
    r = []; stop = None
    for e in es:
        mat = ",".join("%d:%d:%d" % tuple(t) for t in sorted(e["full"])) or "%"
        rhs = ",".join("%s:%d" % (u(q), b) for q, b in zip(e["unk"], e["b"]))
        def f(line, e=e):
            if line.startswith("!"): return line[1:]
            ret, x = line.split(" "); ret = int(ret)
            if e["sing"]: return None if ret < 0 else "status %d for a singular matrix" % ret
            if ret: return "status %d" % ret
            x = [float(z) for z in x.split(",")]
            bad = [k for k in range(len(x)) if not abs(x[k] - e["x"][k]) <= 1e-9]
            if bad: return "unknown %s is %s, not %d" % (e["unk"][bad[0]], x[bad[0]], e["x"][bad[0]])
        r.append(("spsolve %s %d %d %d %s %s %s" % (e["how"], e["drop"], e["nv"], e["size"], shp(e), mat, rhs), f))
        if e["sing"] and e["how"] == "lapack": stop = "exit 1"
    if stop: r[-1] = (r[-1][0], None); r.append(("#end", stop))
    return r
def lots(items, n): return [items[i:i + n] for i in range(0, len(items), n)]
def run(c):
    r = c.tlc("threads store columns in any order", "Sparse", cfg="Sparse_threads.cfg")
    r = c.tlc("sparse vectors of two entries", "Sparse", cfg="Sparse_vec.cfg")
    c.replay("sparse vectors of two entries", lots(r.items, 100), tvec, tmo=60)
    r = c.tlc("operators on two unknowns", "Sparse", cfg="Sparse_build.cfg")
    c.replay("operators on two unknowns", lots(r.items, 100), tbuild, tmo=120)
    r = c.tlc("two equations", "Sparse", cfg="Sparse_solve.cfg")
    one = [e for e in r.items if e["sing"] and e["how"] == "lapack"]; use = [e for e in r.items if not e["sing"] or e["how"].startswith(("di", "dl"))]
    c.replay("two equations", lots(use, 50) + [[e] for e in one], tsolve, tmo=120)
    r = c.tlc("random matrices and operators", "Sparse", cfg="Sparse_random.cfg", consts={"Many": c.pick(600, 8000)}, seed=c.seed, workers=1, timeout=900)
    c.replay("random sparse matrices", lots([e for e in r.items if e["k"] == "vec"], 50), tvec, tmo=60)
    c.replay("random operators", lots([e for e in r.items if e["k"] == "build"], 50), tbuild, tmo=120)
    r = c.tlc("full operators", "Sparse", cfg="Sparse_dense.cfg")
    c.replay("full operators, eight threads", lots(r.items * c.pick(6, 60), 6), tbuild, tmo=120, jobs=2)
    r = c.tlc("random systems", "Sparse", cfg="Sparse_system.cfg", consts={"Many": c.pick(300, 4000)}, seed=c.seed, workers=1, timeout=900)
    c.replay("random systems", lots(r.items, 20), tsolve, tmo=120)
main("P20", run)
