"""Common frame of every check: tier, seed, evidence, violations, known findings."""
import json, os, sys, time, traceback, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc, drv
from tours import tours
VERIF = build.VERIF
enc = drv.enc

SKIP = object()     # from a predicate: what follows in this behaviour cannot be judged

def _short(x, n=20):
    """A sample small enough for the evidence file."""
    if isinstance(x, str): return x if len(x) <= 300 else x[:300] + "..."
    if isinstance(x, list): return [_short(y, max(n // 2, 4)) for y in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, dict): return {k: _short(v, n) for k, v in list(x.items())[:40]}
    return x

def _fit(x):
    for n in (20, 10, 6, 4):
        y = _short(x, n)
        if len(json.dumps(y, default=str)) < 30000: return y
    return json.dumps(y, default=str)[:30000]

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.steps = 0
        self.samples = []; self.nviol = 0; self.known_hit = {}
        self.assumptions = []; self.extra = {}; self.models = {}
        self.outdir = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.outdir, ignore_errors=True); os.makedirs(self.outdir)
        self.known = load_known(pid)
        self.exhaustive = None
        self._driver = {}

    def pick(self, q, t): return q if self.quick else t

    def log(self, *a): print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def driver(self, variant="plain"):
        if variant not in self._driver:
            t = time.time(); self._driver[variant] = build.build(variant)
            self.log("built driver (%s) in %.1fs" % (variant, time.time() - t))
        return self._driver[variant]

    # --- model side
    def tlc(self, name, module, must=True, count=True, **kw):
        r = tlc.run(module, **kw)
        if must: tlc.must(r, "%s/%s" % (self.pid, name))
        if count:
            self.states += r.distinct; self.transitions += r.generated
            self.models[name] = dict(module=module, distinct=r.distinct, generated=r.generated,
                                     behaviours=len(r.items), wall_s=round(r.wall, 1),
                                     mode="simulate" if kw.get("simulate") else "exhaustive")
        self.log("TLC %s: %d states, %d distinct, %d behaviours, %.1fs" % (name, r.generated, r.distinct, len(r.items), r.wall))
        return r

    # --- code side
    def replay(self, name, behaviours, translate, variant="plain", tmo=20, env=None, jobs=None, sample=True, pre=(), maxviol=5):
        """behaviours: list of histories; translate(hist)-> list of (cmd, expected|None|callable), optional
        final element ('#end', 'exit 1')."""
        d = self.driver(variant)
        scripts = []; exps = []; ends = []
        for h in behaviours:
            t = list(pre) + list(translate(h)); end = "exit 0"
            if t and t[-1][0] == "#end": end = t.pop()[1]
            scripts.append([c for c, _ in t]); exps.append([x for _, x in t]); ends.append(end)
        t0 = time.time()
        out = drv.run_scripts(d, scripts, tmo=tmo, env=env, jobs=jobs)
        bad = []
        for k in range(len(scripts)):
            m = self._cmp(scripts[k], exps[k], ends[k], out[k])
            if m: bad.append((k, m))
        if bad:   # only believe what a re-run repeats
            again = drv.run_scripts(d, [scripts[k] for k, _ in bad[:50]], tmo=tmo * 2, env=env, jobs=4)
            conf = []
            for (k, m), o in zip(bad[:50], again):
                m2 = self._cmp(scripts[k], exps[k], ends[k], o)
                if m2: conf.append((k, m2))
            for k, m in conf[:maxviol]:
                self.violation("%s: %s" % (name, m), dict(check=name, behaviour=behaviours[k], commands=scripts[k],
                               expected=[x if not callable(x) else "<predicate>" for x in exps[k]], observed=out[k][0], end=out[k][1]))
            if len(conf) > maxviol: self.log("%d further behaviours of %s disagree" % (len(conf) - maxviol, name))
        self.validated += len(scripts); nst = sum(len(s) for s in scripts); self.steps += nst
        self.models.setdefault(name, {}).update(replayed=len(scripts), replayed_steps=nst)
        if sample and scripts:
            k = (self.seed * 7919) % len(scripts)
            self.samples.append(dict(check=name, behaviour=behaviours[k], commands=scripts[k][:40], observed=out[k][0][:40], end=out[k][1]))
        self.log("replayed %s: %d behaviours, %d steps, %d disagree, %.1fs" % (name, len(scripts), nst, len(bad), time.time() - t0))
        return out

    @staticmethod
    def _cmp(script, exp, end, o):
        lines, e = o
        for i, x in enumerate(exp):
            if i >= len(lines):
                if e == end and end != "exit 0" and i == len(lines): return None   # expected stop at this command
                return "command %d (%s) gave no result, process ended with %s" % (i, script[i][:300], e)
            if x is None: continue
            if callable(x):
                m = x(lines[i])
                if m is SKIP: return None
                if m: return "command %d (%s): %s (observed %s)" % (i, script[i][:300], m, lines[i][:300])
            elif lines[i] != x:
                k = 0
                if len(x) > 300 or len(lines[i]) > 300:
                    while k < min(len(x), len(lines[i])) and x[k] == lines[i][k]: k += 1
                    k = max(0, k - 100)
                return "command %d (%s): specification says %r, sgrid says %r" % (i, script[i][:300], x[k:k+300], lines[i][k:k+300])
        if e != end: return "process ended with %s, specification says %s" % (e, end)
        return None

    # --- verdicts
    def violation(self, what, data=None):
        for k in self.known:
            if k["match"] in what:
                self.known_hit[k["line"]] = self.known_hit.get(k["line"], 0) + 1
                return
        self.nviol += 1
        p = os.path.join(self.outdir, "violation%d.json" % self.nviol)
        with open(p, "w") as f: json.dump(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, data=data), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        print("  " + what[:1500], flush=True)

    def sample(self, s):
        self.samples.append(s)

    def finish(self):
        for k in self.known:
            if k["line"] in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   implementation_steps=self.steps, samples=[_fit(x) for x in self.samples[:6]], models=self.models)
        if self.exhaustive is not None: cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = dict(property=self.pid, tier="thorough" if not self.quick else "quick", seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        self.log("done: %d traces validated, %d violations" % (self.validated, self.nviol))
        return 1 if self.nviol else 0

def load_known(pid):
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known: "): continue
            # known: property=P01 match=[...] text
            f = line[7:]
            if not f.startswith("property=%s " % pid): continue
            f = f.split(" ", 1)[1]
            m, text = f[len("match=["):].split("] ", 1)
            r.append(dict(match=m, text=text, line=line))
    return r

def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except (build.BuildError, tlc.TLCError, drv.DriverError) as e:
        print("ERROR in check %s: %s" % (pid, e)); rc = 2
        if c.nviol: rc = c.finish()      # what was found before the error stands
    except Exception:
        traceback.print_exc(); rc = 3
        if c.nviol: rc = c.finish()
    sys.exit(rc)
