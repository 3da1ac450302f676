"""Build sgrid's library plus the replay driver from /repo's current working tree.

build(variant) -> path of the driver executable.  The build lives in /verif/build/<key>,
key = hash of every source file that goes in, so a stale build can never be used.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

MODS = {"core": ["src/utility/s2kit", "src/utility/GridIterators", "src/utility/LinAlg"],
        "utils": []}
VARIANTS = {
    "plain": "-O1 -g -fopenmp -w",
    "asan":  "-O1 -g -fopenmp -w -fsanitize=address -fno-omit-frame-pointer",
}
LIBS = "-lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas"

class BuildError(Exception):
    pass

def _files(root):
    for d, ds, fs in os.walk(root):
        ds.sort()
        ds[:] = [x for x in ds if x not in (".git",)]
        for f in sorted(fs):
            if f.endswith((".m", ".txt")) or f.startswith("sgrid_automatic_"): continue
            yield os.path.join(d, f)

def source_key(variant):
    h = hashlib.sha256()
    h.update(variant.encode() + VARIANTS[variant].encode())
    roots = [os.path.join(REPO, "src/main"), os.path.join(REPO, "src/utility"),
             HARN, os.path.join(REPO, "utilities")]
    for r in roots:
        for p in _files(r):
            h.update(p.encode()); h.update(b"\0")
            with open(p, "rb") as f: h.update(f.read())
    for p in ("Makefile", "Makefile.subdirs"):
        with open(os.path.join(REPO, p), "rb") as f: h.update(f.read())
    return variant + "-" + h.hexdigest()[:16]

def build(variant="plain", verbose=False):
    key = source_key(variant)
    d = os.path.join(BUILD, key)
    drv = os.path.join(d, "driver")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return drv
        # drop older builds of this variant
        for x in os.listdir(BUILD):
            if x.startswith(variant + "-"): shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        _build(variant, d)
        open(os.path.join(d, "ok"), "w").close()
    return drv

def _run(cmd, cwd, log, env=None):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env)
    return r.returncode

def _build(variant, d):
    oflags = VARIANTS[variant]
    os.makedirs(d)
    log = os.path.join(d, "build.log")
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), symlinks=True,
                    ignore=shutil.ignore_patterns("sgrid_automatic_*", "physics", "Projects", "Math"))
    for f in ("Makefile", "Makefile.subdirs"):
        shutil.copy2(os.path.join(REPO, f), d)
    shutil.copytree(os.path.join(HARN, "VerifPhys"), os.path.join(d, "src/VerifPhys"))
    old = time.mktime((2000, 1, 1, 0, 0, 0, 0, 0, 0))
    for r, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".m"): os.utime(os.path.join(r, f), (old, old))
    os.makedirs(os.path.join(d, "exe"))
    with open(os.path.join(d, "MyConfig"), "w") as f:
        for m in MODS["core"] + ["src/VerifPhys"]:
            f.write("libpaths += %s\n" % m)
        f.write("EXEC = sgrid\nEXECDIR = $(TOP)/exe\nCC = gcc\nCXX = g++\nCLINKER = g++\n")
        f.write("OFLAGS = %s\n" % oflags)
        f.write("DFLAGS += -DLIBSGRID -DNONICOFUNCS -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas "
                "-DUMFPACK -DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL -DVERIF_HOOKS\n")
        f.write("SPECIALINCS += -I/usr/include/suitesparse\nSPECIALLIBS += %s\n" % LIBS)
    env = dict(os.environ); env.pop("MAKEFLAGS", None)
    rc = _run(["make", "-j%d" % (os.cpu_count() or 4), "SHELL=/bin/bash", ".SHELLFLAGS=-ec"], d, log, env)
    lib = os.path.join(d, "lib", "libsgrid.a")
    if rc != 0 or not os.path.exists(lib):
        raise BuildError("sgrid does not build, see %s" % log)
    srcs = sorted(x for x in os.listdir(HARN) if x.startswith("drv") and x.endswith(".c"))
    procs = []
    cc = ["gcc"] + oflags.split() + ["-DLIBSGRID", "-DUMFPACK", "-DSUITESPARSEQR", "-DLAPACK", "-DFFTW3", "-DGSL", "-I" + HARN, "-I" + os.path.join(d, "src/main/main"), "-I" + os.path.join(d, "src/main/MemoryMan"), "-I/usr/include/suitesparse"]
    objs = []
    with open(log, "ab") as f:
        for s in srcs:
            o = os.path.join(d, s[:-2] + ".o"); objs.append(o)
            procs.append((s, subprocess.Popen(cc + ["-c", os.path.join(HARN, s), "-o", o], stdout=f, stderr=f)))
        for s, p in procs:
            if p.wait() != 0: raise BuildError("driver file %s does not compile, see %s" % (s, log))
    # libsgrid.a holds every module; repeat it for cyclic references
    libs = [os.path.join(d, "lib", x) for x in sorted(os.listdir(os.path.join(d, "lib"))) if x.endswith(".a")]
    cmd = ["g++"] + oflags.split() + ["-o", os.path.join(d, "driver")] + objs + \
          ["-Wl,--start-group"] + libs + ["-Wl,--end-group"] + LIBS.split() + ["-lm", "-ldl"]
    if _run(cmd, d, log) != 0:
        raise BuildError("driver does not link, see %s" % log)
    # object files are no longer needed
    shutil.rmtree(os.path.join(d, "lib", "obj"), ignore_errors=True)

def build_utility(name):
    """compile one stand-alone program of /repo/utilities"""
    src = os.path.join(REPO, "utilities", name + ".c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(BUILD, "util-" + name + "-" + h)
    exe = os.path.join(d, name)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock.util"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            for x in os.listdir(BUILD):
                if x.startswith("util-" + name + "-"): shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
            os.makedirs(d)
            r = subprocess.run(["gcc", "-O1", "-g", "-w", "-o", exe, src, "-lm"], capture_output=True, text=True)
            if r.returncode: raise BuildError("utility %s does not compile:\n%s" % (name, r.stderr))
    return exe

if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"), "%.1fs" % (time.time() - t))
