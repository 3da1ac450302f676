import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *

def expand(pieces):
    o = []
    for p in pieces:
        if len(p) > 1 and p[0] == "@": o.append(("\n" if p[1] == "N" else " ") * int(p[2:]))
        else: o.append(p)
    return "".join(o)

def dbstr(db): return " ".join(enc(n) + "=" + enc(v) for n, v in db)

def translate(h):
    r = []
    for s in h:
        r.append(("parfile " + enc(expand(s["file"])), "ok"))
        r.append(("dump", dbstr(s["db"])))
    return r

def run(c):
    c.driver()
    r = c.tlc("characters (exhaustive)", "ParFile", cfg="ParFile_char.cfg", consts={"MaxPieces": c.pick(6, 7)}, workers=None)
    c.replay("characters (exhaustive)", r.items, translate)
    r = c.tlc("words (random)", "ParFile", cfg="ParFile_word.cfg", simulate=c.pick(3000, 40000), depth=80, seed=c.seed, workers=1)
    c.replay("words (random)", r.items, translate)
    c.assumptions += ["file bytes are ASCII", "files smaller than the documented 1 MB limit"]

main("P01", run)
