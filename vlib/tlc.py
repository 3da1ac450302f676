"""Running TLC: model checking, behaviour generation, trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    pass

class Result:
    def __init__(self):
        self.generated = self.distinct = 0
        self.depth = 0
        self.rc = None
        self.out = ""
        self.items = []
        self.wall = 0.0
        self.coverage = {}
    @property
    def ok(self): return self.rc == 0

def run(module, cfg=None, workers=None, simulate=None, depth=None, seed=None, env=None,
        timeout=600, consts=None, coverage=False, mem="4g", dfs=False, extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>.  consts: dict overriding CONSTANT lines
    (appended to a private copy of the cfg).  Lines printed as "@@<json>" are returned in items."""
    cfg = cfg or module + ".cfg"
    tmp = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        cfgtxt = open(os.path.join(SPEC, cfg)).read()
        if consts:
            for k in consts:   # drop the default of an overridden constant
                cfgtxt = re.sub(r"(?m)^\s*%s\s*(=|<-).*$" % re.escape(k), "", cfgtxt)
            cfgtxt += "\nCONSTANTS\n" + "".join("  %s %s\n" % (k, v if str(v).lstrip().startswith("<-") else "= %s" % v) for k, v in consts.items())
        cfgp = os.path.join(tmp, "M.cfg")
        open(cfgp, "w").write(cfgtxt)
        cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-Xss32m", "-Djava.io.tmpdir=" + tmp]
        if dfs: cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(tmp, "st"), "-noGenerateSpecTE",
                "-workers", str(workers or os.cpu_count() or 4)]
        if simulate: cmd += ["-simulate", "num=%d" % simulate]
        if depth: cmd += ["-depth", str(depth)]
        if seed is not None: cmd += ["-seed", str(seed)]
        if coverage: cmd += ["-coverage", "1"]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        t = time.time()
        outp = os.path.join(tmp, "out")
        with open(outp, "wb") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -99
        r = Result(); r.rc = rc; r.wall = time.time() - t
        rest = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"@@'):
                    r.items.append(json.loads(json.loads(line)[2:]))
                else: rest.append(line)
        r.out = "".join(rest)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", r.out)
        if m:
            r.generated = int(m[-1][0].replace(",", "")); r.distinct = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", r.out) or re.findall(r"Progress: ([\d,]+) states checked", r.out)
            if m: r.generated = r.distinct = int(m[-1].replace(",", ""))
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        if m: r.depth = int(m.group(1))
        if coverage:
            for m in re.finditer(r"<(\w+) line \d+.*?>: (\d+):(\d+)", r.out):
                r.coverage[m.group(1)] = (int(m.group(2)), int(m.group(3)))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def must(r, what):
    """a model that fails its own check is an error of the machinery"""
    if not r.ok:
        raise TLCError("%s: TLC exit %s\n%s" % (what, r.rc, r.out[-4000:]))
    return r
