"""Behaviours of spec/Runs.tla as whole runs of sgrid."""
import json, re, struct
from chk import *
SIZES = {1: (3, 2, 2), 2: (4, 2, 2)}
NOREAD = "checkpoint finaltime iterations outdir parameterfile iterate_parameters checkpoint_no_read_parlist sgrid_options"

# what the tags stand for
TEXT = {0: "none", 1: "p1", 2: "", 3: "two words", 4: "-1e-300", 5: "a=b", 6: "x==y=", 7: "yes no yes", 8: " ".join("item%d" % i for i in range(120)), 9: "quoted $BEGIN_x: %d"}
SPECIAL = {1: [1.0, -2.5], 2: [float("nan"), 0.0], 3: [float("inf"), float("-inf")], 4: [-0.0, 5e-324], 5: [1.7976931348623157e308, -2.2250738585072014e-308],
           6: [0.1, 1 / 3.0], 7: [float.fromhex("0x1.0000000a0000ap5"), -1e22], 8: [10.0, 2570.0], 9: [float.fromhex("0x1.20a0d0a0d0a0dp-30"), 36.0]}
def special(x, size):
    """hash of z: two boxes, special values at points 1 and 2 of both"""
    n = SIZES[size][0] * SIZES[size][1] * SIZES[size][2]; h = 1469598103934665603
    for b in range(2):
        d = [0.0] * n; d[1], d[2 + b] = SPECIAL[x]
        for c in struct.pack("<%dd" % n, *d): h = ((h ^ c) * 1099511628211) & (2**64 - 1)
    return "%016x" % h
def hexnum(v): return repr(v).replace("+", "")

def num(n, unit=40):
    x = n / unit
    return "%d" % x if x == int(x) else "%.17g" % x
def meth(m): return {"icn": "evolution_method=icn\n", "euler": "evolution_method=euler\n"}.get(m, "evolution_method=rk\nevolution_method_rk=%s\n" % m)
def parfile(c, log=True, comment=""):
    s = SIZES[c["size"]]
    r = comment + "physics=verif\nnboxes=2\n"
    for b in range(2): r += "".join("box%d_n%d=%d\n" % (b, i + 1, s[i]) for i in range(3))
    r += "verif_vars=u w zz\nverif_evolve=u\n" + meth(c["meth"])
    r += "dt=%s\niterations=%d\n" % (num(c["dt"]), c["n"])
    if c["ft"]: r += "finaltime=%s\n" % num(c["ft"])
    r += "verif_funs=PRE_INITIALDATA/i/on:w+on:zz%s POST_EVOLVE/e/add:w:1 ANALYZE/h/hash:u+show:w+hash:zz OUTPUT/g/get:verif_p+get:verif_q+get:verif_r%s\n" % ("".join("+put:zz:%d:1:%s+put:zz:%d:%d:%s" % (b, hexnum(SPECIAL[c["x"]][0]), b, 2 + b, hexnum(SPECIAL[c["x"]][1])) for b in range(2)) + ("+set:verif_q:%s+set:verif_r:%s" % (2 * (TEXT[c["x"]].replace("=", "~"),)) if "=" in TEXT[c["x"]] else ""), "+log:log" if log else "")
    r += "verif_p=p%d\nverif_q=%s\nverif_r=%s\n" % ((c["x"],) + 2 * (("set later",) if "=" in TEXT[c["x"]] else (TEXT[c["x"]],)))
    r += "checkpoint=%s\n" % ("yes" if c["ck"] else "no")
    if c["ck"]:
        r += "checkpoint_di=%d\ncheckpoint_restart_it=%d\ncheckpoint_previous=%s\n" % (c["di"], c["rit"], "yes" if c["cp"] else "no")
        if c["dT"]: r += "checkpoint_DeltaT=%s\n" % num(c["dT"])
        if c["add"] == "w": r += "checkpoint_additional_variables=zz w\n"
        if c["add"] == "all": r += "checkpoint_variables=all\n"
        if c["ext"]: r += "checkpoint_no_read_parlist=%s xverif_q verif_r checkpoint_di verif_pp checkpoint_previous\n" % NOREAD
    return r
def fnv(t):
    h = 1469598103934665603
    for b in t.encode(): h = ((h ^ b) * 1099511628211) & (2**64 - 1)
    return h
def content(t):
    return "#%d.%08x" % (len(t), fnv(t) & 0xffffffff) if len(t) > 400 else enc(t)

class Hashes:
    """what u is after k uninterrupted steps: measured once per (dt, method, size)"""
    def __init__(self, check): self.c = check; self.t = {}
    def need(self, toks):
        n = max(k[1] for k in toks)
        want = sorted({(k[0], k[2], k[3]) for k in toks} - set(self.t))
        scripts = []
        for dt, m, size in want:
            cfg = dict(n=n, ft=0, dt=dt, dT=0, di=1, rit=1, cp=False, add="none", ext=False, ck=False, size=size, x=1, meth=m)
            scripts.append(["sandbox", "mkfile a.par " + enc(parfile(cfg, log=False)), "run - a.par"])
        out = drv.run_scripts(self.c.driver("plain"), scripts, tmo=60)
        for w, (lines, e) in zip(want, out):
            h = re.findall(r"hash (\d+) ([0-9a-f]+)", lines[2] if len(lines) > 2 else "")[::2]
            if [int(x[0]) for x in h] != list(range(n + 1)):
                self.c.violation("an uninterrupted run of %d steps does not report %d states" % (n, n + 1), dict(token=w, lines=lines, end=e)); h = []
            elif len({x[1] for x in h}) != n + 1: self.c.violation("data do not change from step to step", dict(token=w, lines=lines))
            self.t[w] = [x[1] for x in h]
    def get(self, k):
        t = self.t[(k[0], k[2], k[3])]
        return t[k[1]] if k[1] < len(t) else "?"

def tokens(behaviours):
    s = set()
    for h in behaviours:
        for e in h:
            for x in e.get("ev", []): s.add(tuple(x["tok"]))
    return s

def events(e, H):
    r = []
    for x in e["ev"]:
        t = num(x["dt"] * x["it"])
        r += ["ANALYZE h %d %s" % (x["it"], t), "hash %d %s" % (x["it"], H.get(x["tok"])), "show w" + " %d,%d" % (x["w"], x["w"]) * 2, "hash %d %s" % (x["it"], special(x["z"], x["size"])),
              "OUTPUT g %d %s" % (x["it"], t), "get verif_p=p%d" % x["p"], "get verif_q=" + TEXT[x["q"]], "get verif_r=" + TEXT[x["r"]]]
    return r
def near(a, b):
    """times are products of it and dt: the last bits are not the matter here"""
    if a == b: return True
    fa, fb = a.split(" "), b.split(" ")
    if len(fa) != 4 or fa[:3] != fb[:3] or fa[0] not in ("ANALYZE", "OUTPUT"): return False
    try: return abs(float(fa[3]) - float(fb[3])) < 1e-12
    except ValueError: return False

def dirlist(name, d, pars, log):
    """the files of one directory, as the driver's tree prints them"""
    if not d["on"]: return []
    r = []
    if d["par"]: r.append("%s/a.par=%s" % (name, pars[d["par"]]))
    if d["ck"]["on"]: r.append("%s/checkpoint.0=ck(%d,%s)" % (name, d["ck"]["it"], "complete" if d["ck"]["ok"] else "partial"))
    if log and d["log"]: r.append("%s/log=%s" % (name, enc("".join("p%d.%d;" % tuple(x) for x in d["log"]))))
    for o in d["own"]: r += ["%s/mine%d=own%d" % (name, o, o), "%s/own%d/" % (name, o), "%s/own%d/deep=own%d" % (name, o, o), "%s/link%d@" % (name, o), "%s/own%d/up@" % (name, o)]
    return [name + "/"] + sorted(r)
def gettree(line, around=()):
    """what is in the scratch directory: without unfinished things (*_new) and parameter files of the user"""
    t = [] if line == "%" else line.split(" ")
    t = [x for x in t if not any(c.endswith("_new") for c in re.split("[=@]", x)[0].split("/"))]
    return sorted(x for x in t if x not in around and not re.match(r"(|other/|other/deep/)[a-c]\.par=", x))
# things of the user's that sgrid has no business with
NEAR = ["a_previous_mine=1", "b=keep", "ext/", "ext/keep=1", "other/", "other/mine=1"]

class Runs:
    def __init__(self, check, log, arg="a.par", base="", near=False):
        self.arg = arg; self.base = base; self.near = NEAR + (["other/deep/"] if base == "other/deep/" else []) if near else []
        self.H = Hashes(check); self.c = check; self.log = log; self.allowed = {}; self.unfired = 0; self.other = 0
    idof = staticmethod(lambda c: c["id"])
    def tree(self, e, pars): return dirlist(self.base + "a", e["cur"], pars, self.log) + dirlist(self.base + "a_previous", e["prev"], pars, self.log) + self.near
    def ends(self, edges):
        """what the specification allows a crash of a run (start, configuration) to leave"""
        for x in edges:
            e = x["e"]
            if e["op"] == "run" and e["f"] != "-":
                k = json.dumps([x["f"], e["cfg"]], sort_keys=True); e["_f"] = k
                self.allowed.setdefault(k, []).append(e)
    def translate(self, h):
        r = [("sandbox", "ok")]; pars = {}; a = self.base + "a"
        for x in self.near: r.append(("mkdirp " + x if x.endswith("/") else "mkfile %s %s" % tuple(x.split("=")), "ok"))
        for e in h:
            if e["op"] == "run":
                c = e["cfg"]; text = parfile(c, self.log); box = {}
                r.append(("mkfile %s.par " % a + enc(text), "ok")); pars[self.idof(c)] = content(text)
                r.append(("run %s %s%s" % (e["f"], self.arg, " --keep_previous" if c["keep"] else ""), self.result(e, box)))
                r.append(("tree", self.dirs(e, box, pars)))
            else:
                own = lambda d, n: [("mkdirp %s/own%d" % (d, n), "ok"), ("mkfile %s/mine%d own%d" % (d, n, n), "ok"), ("mkfile %s/own%d/deep own%d" % (d, n, n), "ok"),
                                    ("symlink @SB@/ext %s/link%d" % (d, n), "0"), ("symlink @SB@/other/mine %s/own%d/up" % (d, n), "0")]
                r += {"recover": [("rmtree %s" % a, "ok"), ("mv %s_previous %s" % (a, a), "0")], "dropall": [("rmtree %s" % a, "ok"), ("rmtree %s_previous" % a, "ok")],
                      "dropprev": [("rmtree %s_previous" % a, "ok")], "damage": [("damage %s/checkpoint.0 chop %s" % (a, e.get("n")), "0")],
                      "leave": own(a, 1), "leaveprev": own(a + "_previous", 2)}[e["op"]]
                r.append(("tree", self.dirs(e, {}, pars)))
        return r
    def result(self, e, box):
        def f(line):
            got = line.split(";"); inj = e["f"] != "-"
            fired = "!fired" in got
            box["skip"] = False
            if inj and not fired: self.unfired += 1; return SKIP
            bad = [g for g in got if g.startswith("!") and g != "!fired"]
            if bad: return "unexpected: %s" % bad
            got = [g for g in got if g != "!fired" and not g.startswith(("PRE_INITIALDATA ", "POST_EVOLVE "))]
            box["got"] = got; box["e"] = e
            m = self.same(got, e)
            box["m"] = m
            if m and not inj: return m
            return None
        return f
    def same(self, got, e):
        want = [e["code"]] + events(e, self.H)
        for i in range(max(len(want), len(got))):
            a = got[i] if i < len(got) else "(nothing)"; b = want[i] if i < len(want) else "(nothing)"
            if not near(a, b): return "event %d is %r, the specification says %r (run with %s, fault %s)" % (i, a, b, json.dumps(e["cfg"]), e["f"])
        return None
    def dirs(self, e, box, pars):
        def f(line):
            got = gettree(line); want = sorted(self.tree(e, pars)); m = box.get("m")
            if got == want and not m: return None
            if e["op"] == "run" and e["f"] != "-":      # another place where a crash leaves things is as good
                for x in self.allowed.get(e.get("_f", ""), []):
                    if (x["f"].split(",")[0] in ("kill", "torn", "after")) != (e["f"].split(",")[0] in ("kill", "torn", "after")): continue
                    if x["code"] != "sig 9" and x["f"].split(",")[1] != e["f"].split(",")[1]: continue
                    if sorted(self.tree(x, pars)) == got and not self.same(box["got"], x): self.other += 1; return SKIP
            if m: return m
            return "directories %s, the specification says %s (after %s)" % ([x for x in got if x not in want], [x for x in want if x not in got], json.dumps({k: e[k] for k in ("op", "cfg", "f") if k in e}))
        return f
