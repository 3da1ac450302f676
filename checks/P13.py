import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
import runs
def run(c):
    for name, cfg, kw in (("every resume between eight configurations", "resume", {}),
                          ("any configurations (random)", "any", dict(simulate=c.pick(1500, 20000), depth=1500, seed=c.seed, workers=1))):
        r = c.tlc(name, "Runs", cfg="Runs_%s.cfg" % cfg, timeout=900, **kw)
        R = runs.Runs(c, log=cfg == "any"); R.ends([])
        t = tours(r.items, maxlen=100) if cfg == "resume" else r.items
        R.H.need(runs.tokens(t))
        c.replay(name, t, R.translate, tmo=60, jobs=8)
main("P13", run)
