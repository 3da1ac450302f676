import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
from urllib.parse import unquote
def look(wants, total):
    """named stretches, in order, for each variable in turn"""
    def pred(line):
        n, _, text = line.partition(" "); text = unquote(text)
        if int(n) != total: return "finds %s invalid numbers, there are %d" % (n, total)
        got = []
        for l in text.splitlines():
            m = re.match(r"NAN/INF: (\w+)=(\S+) (at|til) +(?:ijk=)?(\d+): x=(\S+) y=(\S+) z=(\S+) box(\d+) .*X=(\S+) Y=(\S+) Z=(\S+)", l)
            if m:
                b, i = int(m.group(8)), int(m.group(4)); got.append((m.group(1), m.group(3), b, i))
                e = [1000 * k + 100 * b + i for k in range(1, 7)]
                if [float(m.group(k)) for k in (5, 6, 7, 9, 10, 11)] != e: return "names the coordinates of another point: " + l
        want = [(w["v"], x[0], x[1], x[2]) for w in wants for x in w["named"]]
        if got != want: return "names %s instead of %s" % (got, want)
        counts = [int(x) for x in re.findall(r"^(\d+) NAN/INFs were detected", text, re.M)]
        if counts != [w["n"] for w in wants if w["n"]]: return "says %s were detected" % counts
        return None
    return pred
def setcmd(v, boxes): return "nc_set %s %s" % (v, ";".join(",".join(b) for b in boxes))
def batch(items, k=60):
    return [items[i:i + k] for i in range(0, len(items), k)]
def trans(inf):
    def t(group):
        r = [("nc_init " + inf, "ok")]
        for x in group:
            r += [(setcmd("u", x["grid"]["u"]), "ok"), (setcmd("w", x["grid"]["w"]), "ok"), ("nc_check u", look([x["u"]], x["u"]["n"])), ("nc_check w u", look([x["w"], x["u"]], x["u"]["n"] + x["w"]["n"]))]
        return r
    return t
KIND = {"nan": "nan", "inf": "inf", "abovem": "1.0000000001e300", "m": "1e300"}
def translate(b):
    r = b["run"]
    s = "physics=verif NumberChecker\nnboxes=2\ndt=0.5\niterations=%d\ncheckpoint=no\nNumberChecker_exitifNAN=%s\nverif_vars=u w\n" % (r["n"], r["v"])
    for i in (0, 1): s += "box%d_n1=2\nbox%d_n2=3\nbox%d_n3=2\n" % (i, i, i)
    put = "put:%s:%d:%d:%s" % (r["w"], r["b"], r["pt"], KIND[r["x"]])
    f = ["INITIALDATA/on/on:u+on:w", "PRE_EVOLVE/step"]
    f.append("%s/p/%s" % (r["ph"], put if r["ph"] == "INITIALDATA" else "%s@%d" % (put, r["it"])))
    s += "verif_funs=%s\n" % " ".join(f)
    def run(line):
        n = line.count(";PRE_EVOLVE step")
        if line.startswith("sig"): return "the run dies"
        if n != b["steps"]: return "makes %d steps, not %d" % (n, b["steps"])
        if not b["seen"] and not line.startswith("exit 0"): return "fails without an invalid number"
        return None
    said = lambda line: None if (int(line) > 0) == b["seen"] else "invalid numbers are %sreported" % ("not " if b["seen"] else "")
    return [("sandbox", None), ("mkfile a.par " + enc(s), None), ("run - a.par", run), ("said " + enc("NAN/INF: " + (r["w"] if b["seen"] else "")), said)]
def run(c):
    for name, cfg in (("any two numbers at any two points", "values"), ("every pattern of invalid points and missing storage", "patterns"), ("lists of variables", "lists")):
        r = c.tlc(name, "NumCheck", cfg="NumCheck_%s.cfg" % cfg, timeout=900)
        for inf in c.pick(["1e300", "10"], ["1e300", "10", "0.5", "1e307"]):
            c.replay("%s, NumberChecker_INF=%s" % (name, inf), batch(r.items), trans(inf), tmo=60, jobs=8)
    r = c.tlc("runs told to end", "NumCheck", cfg="NumCheck_runs.cfg", timeout=900)
    c.replay("runs told to end", r.items, translate, tmo=60, jobs=8)
main("P19", run)
