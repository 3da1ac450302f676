import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
import runs
def run(c):
    for name, consts in (("checkpoints after a step", c.pick({"Cfgs": "<- VCrashq"}, {})), ("checkpoints of initial data", {"Cfgs": "<- VCrash0"})):
        r = c.tlc(name, "Runs", cfg="Runs_crash.cfg", consts=consts, timeout=900)
        R = runs.Runs(c, log=False); R.ends(r.items)
        t = tours(r.items, maxlen=c.pick(100, 60))
        R.H.need(runs.tokens(t))
        c.replay(name, t, R.translate, tmo=60, jobs=8)
        c.extra.setdefault("injected", {})[name] = dict(unfired=R.unfired, elsewhere=R.other)
main("P12", run)
