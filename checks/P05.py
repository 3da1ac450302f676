import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
NAMES = "verif_p verif_q verif_pq outdir sgrid_options sgrid_arg2 sgrid_arg3".split()
def parfile(f):
    return ("physics=verif\nnboxes=1\nbox0_n1=2\nbox0_n2=2\nbox0_n3=2\niterations=0\ncheckpoint=no\nverif_quiet=yes\nverif_p=file %s\n" % f +
            "verif_funs=POST_PARAMETERS/f/%s\n" % "+".join("get:" + n for n in NAMES))
def dirs(want):
    def f(line):
        got = sorted(x[:-1] for x in line.split(" ") if x.endswith("/"))
        if got != sorted(want): return "directories %s, the specification says %s" % (got, sorted(want))
    return f
def translate(b):
    exp = ";".join([b["end"]] + ["get %s=%s" % (n, r[n]) for r in b["runs"] for n in NAMES])
    r = [("sandbox", None)] + [("mkfile %s %s" % (f, enc(parfile(f))), None) for f in ("a.par", "b.par")]
    if b["way"] == "file": r += [("mkfile args " + enc(b["text"]), None), ("run - --argsfile args", exp)]
    else: r.append(("run - " + " ".join(enc(w) for w in b["words"]), exp))
    return r + [("tree", dirs(b["dirs"]))]
def run(c):
    for name, cfg, over in (("words on the command line", "direct", dict(Vocab="<- VDirectq" if c.quick else "<- VDirect")),
                            ("lines of an argument file", "file", dict(MaxLen=c.pick(5, 6)))):
        r = c.tlc(name, "Args", cfg="Args_%s.cfg" % cfg, consts=over, timeout=900)
        c.replay(name, r.items, translate, tmo=60, jobs=8)
main("P05", run)
