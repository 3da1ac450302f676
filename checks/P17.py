import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from chk import *
lst = lambda a: ",".join(map(str, a)) or "%"
def near(x, num, den): return abs(x * den - num) <= 1e-9 * (1 + abs(num))
def compare(line, want, what):
    parts = line.split("|")
    if len(parts) != len(want): return "%s: %s" % (what, line[:200])
    for b, (p, w) in enumerate(zip(parts, want)):
        try: xs = [float(t) for t in p.split(",")]
        except ValueError: return "%s: %s" % (what, p[:200])
        for i, (x, (num, den)) in enumerate(zip(xs, w)):
            if not near(x, num, den): return "%s: row %d entry %d is %.15g, not %d/%d" % (what, b, i, x, num, den)
        if len(xs) != len(w): return "%s: row %d has %d entries" % (what, b, len(xs))
def faces(e):
    nb = len(e["n"]); r = [("bc_grid %d" % nb, "ok")]
    for b in range(nb):
        r.append(("bc_box %d %d %d %d %d %d %d %d %d %d %s %d %s" % tuple([b] + e["n"][b] + e["lo"][b] + e["hi"][b] + [e["kind"][b], e["hasH"][b], " ".join(lst([x for row in M for x in row]) for M in e["A"][b])]), "ok"))
        fs = [("psi", e["psi"][b])] + [("psi" + "xyz"[d], e["dpsi"][b][d]) for d in range(3)] + [("w%d" % (k + 1), e["w"][b][k]) for k in range(6)]
        fs.append(("fpsi", [1000 * (b + 1) + x + 1 for x in range(len(e["psi"][b]))]))
        r += [("bc_fill %d %s %s" % (b, nm, lst(a)), "ok") for nm, a in fs]
    for b in range(nb):
        for f in e["F"][b]:
            r.append(("bc_face %d %d %d %d %d %d %d %d %d %d %d %d %d %d %s" % tuple([b, f["f"], f["ob"] - 1, f["ofi"] - 1, f["touch"], f["fpts"]] + [int(x) for x in f["same"]] + [f["off"], f["nd"]] + f["o"] + [lst(f["pts"])]), "ok"))
    for h in e["hist"]:
        what = h["op"] + " " + " ".join(map(str, h["a"]))
        if h["ends"]: return r + [("bc_do " + what, None), ("#end", "exit 1")]
        if h["op"] == "dir":
            want = [[[x, g["len"]] for x in g["v"]] for g in h["f"]]
            r.append(("bc_dir " + " ".join(map(str, h["a"])), lambda line, want=want, what=what: compare(line, want, what)))
        else: r.append(("bc_do " + what, lambda line, want=h["f"], what=what: compare(line, want, what)))
    return r
LN = ["box", "radiative", "constant", "selected", "Excision"]
def rules(e):
    nb = e["nb"]; w3 = ["new", "pre", "cur"]
    r = [("br_grid %d %d %d %d %d %s %s" % tuple([nb] + e["v0"] + e["far"] + [enc(" ".join(e["frozen"])) or "%", enc(" ".join(e["chosen"])) or "%"]), "ok")]
    for b in range(nb):
        sp = [x for i in e["X"][b] for x in e["spots"][i]]
        r.append(("br_box %d %d %d %d %s %s %s %s" % tuple([b] + e["n"][b] + [e["coords"][b], " ".join(e["basis"][b]), " ".join(lst([x for row in M for x in row]) for M in e["D"][b]), lst(sp)]), "ok"))
    on = ""
    def ask(cmd, want, what): r.append((cmd, lambda line: compare(line, [[[x, 1] for x in row] for row in want], what)))
    for k, h in enumerate(e["hist"]):
        o, a = h["op"], h["a"]; what = "call %d (%s) with %s on" % (k, o, on)
        if o == "fields":
            for wi, w in enumerate(w3):
                for v in range(2): r += [("br_fill %d %d %d %s" % (wi, v, b, lst(h["out"][w][v][b])), "ok") for b in range(nb)]
        elif o == "fill": r += [("br_fill %d %d %d %s" % (w3.index(a[0]), a[1], b, lst(h["out"][b])), "ok") for b in range(nb)]
        elif o == "fill2":
            for v in range(2): r += [("br_fill 0 %d %d %s" % (v, b, lst(h["out"][v][b])), "ok") for b in range(nb)]
        elif o == "on": on = " ".join(h["out"]); r.append(("br_on " + (enc(on) or "%"), "ok"))
        elif o == "init": r.append(("br_init", "|".join(",".join(map(str, h["out"][L][b])) for L in LN for b in range(nb))))
        elif o == "apply": ask("br_apply %d %d" % tuple(a), [h["out"][v][b] for v in range(2) for b in range(nb)], what + " c=%d t=%d" % tuple(a))
        else: ask("br_pl %s %d %d %d %s" % (o, a[0], a[1], a[2], " ".join(lst(x) for x in a[3])), h["out"], what + " %s" % a)
    return r
def run(c):
    for k in range(c.pick(1, 4)):
        r = c.tlc("rules at the outer boundary %d" % k, "BCRules", cfg="BCRules_rnd.cfg", simulate=c.pick(350, 3000), depth=30, seed=17 + k + 1000 * c.seed, workers=1, timeout=900)
        c.replay("rules at the outer boundary %d" % k, r.items, rules, tmo=60, jobs=8, variant=c.pick("plain", "asan"))
    for k in range(c.pick(1, 4)):
        for nm, cfg in (("conditions that can be imposed", "BCs_rnd.cfg"), ("conditions that end the run", "BCs_ends_rnd.cfg")):
            r = c.tlc("%s %d" % (nm, k), "BCs", cfg=cfg, simulate=c.pick(700, 6000), depth=10, seed=17 + k + 1000 * c.seed, workers=1, timeout=900)
            c.replay("%s %d" % (nm, k), r.items, faces, tmo=60, jobs=8, variant=c.pick("plain", "asan"))
main("P17", run)
