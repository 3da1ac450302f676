import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
import runs
def run(c):
    def go(name, r, **kw):
        t = tours(r.items, maxlen=100)
        R = runs.Runs(c, log=False, near=True, **kw); R.ends(r.items)
        R.H.need(runs.tokens(t))
        c.replay(name, t, R.translate, tmo=60, jobs=8)
    r = c.tlc("every history of runs and of what the user does between them", "Runs", cfg="Runs_dirs.cfg", timeout=900)
    go("parameter file a.par", r)
    if c.quick: r = c.tlc("histories without things left by the user", "Runs", cfg="Runs_dirs.cfg", timeout=900, consts={"Groups": '{"recover", "drop"}'})
    for arg, base in (("./a.par", ""), ("other/a.par", "other/"), ("@SB@/other/deep/a.par", "other/deep/")):
        go("parameter file " + arg, r, arg=arg, base=base)
    r = c.tlc("a start that cannot have its directories", "Runs", cfg="Runs_dirs.cfg", timeout=900, consts={"Groups": '{"sfail", "leave", "drop"}', "Cfgs": c.pick("<- VDirsq", "<- VDirs")})
    go("failing operations", r)
main("P04", run)
