"""Replaying command scripts in the driver."""
import os, subprocess, tempfile, shutil

def enc(s):
    """%-encode a string argument (None -> ~)"""
    if s is None: return "~"
    if s == "": return "%"
    o = []
    for b in s.encode("latin-1"):
        if b <= 32 or b in (37, 126) or b >= 127: o.append("%%%02X" % b)
        else: o.append(chr(b))
    return "".join(o)

class DriverError(Exception):
    pass

def run_scripts(driver, scripts, jobs=None, tmo=20, env=None, total_timeout=600):
    """scripts: list of lists of command lines. Returns list of (lines, end) with end like 'exit 0'."""
    n = len(scripts)
    jobs = max(1, min(jobs, n) if jobs else min(os.cpu_count() or 4, (n + 19) // 20))
    tmp = tempfile.mkdtemp(prefix="verif_drv_")
    e = dict(os.environ); e["OMP_NUM_THREADS"] = "1"; e["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"; e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"
    e.update(env or {})
    try:
        procs = []
        for j in range(jobs):
            sp = os.path.join(tmp, "s%d" % j); op = os.path.join(tmp, "o%d" % j)
            with open(sp, "w") as f:
                for s in scripts[j::jobs]:
                    f.write("B\n"); f.write("\n".join(s)); f.write("\nE\n")
            wd = os.path.join(tmp, "w%d" % j); os.mkdir(wd)
            procs.append((op, subprocess.Popen([driver, sp, op, str(tmo)], cwd=wd, env=e,
                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        res = [None] * n
        for j, (op, p) in enumerate(procs):
            try:
                _, err = p.communicate(timeout=total_timeout)
            except subprocess.TimeoutExpired:
                for _, q in procs: q.kill()
                raise DriverError("driver timed out")
            if p.returncode != 0: raise DriverError("driver failed: rc %s %s" % (p.returncode, err[-500:]))
            k = j; lines = []; done = False
            with open(op, errors="replace") as f:
                for line in f:
                    line = line.rstrip("\n")
                    if line.startswith("#E "):
                        if lines and lines[-1] == "": lines.pop()
                        res[k] = (lines, line[3:]); lines = []; k += jobs
                    elif line == "#DONE": done = True
                    else: lines.append(line)
            if not done: raise DriverError("driver output incomplete")
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
