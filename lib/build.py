"""Builds the jaxions library + observer driver / main programs from /repo's current tree.

Objects go to a content-hash cache (VERIF_CACHE or /verif/.cache): a hit needs the same
source, the same headers, the same flags and compiler, so a check always runs the current tree.
"""
import os, re, sys, hashlib, subprocess, concurrent.futures as cf, time, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))

def _sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

class BuildError(Exception):
    pass

_mpi = None
def mpi_flags():
    global _mpi
    if _mpi is None:
        c = _sh(["mpicxx", "--showme:compile"]).stdout.split()
        l = _sh(["mpicxx", "--showme:link"]).stdout.split()
        _mpi = (c, l)
    return _mpi

def base_flags():
    return (["-fopenmp", "-mavx2", "-mfma", "-DUSE_PROP_RKN4", "-mcmodel=medium", "-std=gnu++14", "-w",
             "-I" + REPO + "/include", "-I" + REPO + "/lib", "-isystem", "/usr/include/hdf5/openmpi"] + mpi_flags()[0])

LINK = ["-fopenmp", "-mcmodel=medium", "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-lfftw3_mpi", "-lfftw3f_mpi",
        "-lfftw3_omp", "-lfftw3f_omp", "-lfftw3", "-lfftw3f", "-lgsl", "-lgslcblas", "-lm", "-ldl", "-lpthread"]

def lib_sources():
    t = open(REPO + "/lib/CMakeLists.txt").read()
    m = re.search(r"set\s*\(\s*OBJS\s+(.*?)\)", t, re.S)
    return [os.path.join(REPO, "lib", f) for f in m.group(1).split() if f.endswith(".cpp")]

def _header_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/lib", VERIF + "/harness"):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "/cub" in d: continue
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".cuh")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

PROFILES = {
    # name: (default opts, opts for the heavy propagator unit, link opts)
    "std":  (["-O1", "-g1"], ["-Og", "-g1"], []),
    "asan": (["-O1", "-g1", "-fsanitize-recover=address", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"],
             ["-O0", "-g1", "-fsanitize-recover=address", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-O0", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),	# with harness/ompshim.cpp in the place of libgomp
}
HEAVY = ("propagator/propagator.cpp",)

def compile_one(src, opts, key0, extra=()):
    h = hashlib.sha256()
    cmd = ["g++"] + base_flags() + list(opts) + list(extra)
    h.update((" ".join(cmd) + src + key0).encode()); h.update(open(src, "rb").read())
    out = os.path.join(CACHE, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out, None, 0.
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    t = time.time()
    r = _sh(cmd + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return None, "compile failed: %s\n%s" % (src, r.stdout[-4000:]), 0.
    os.replace(tmp, out)
    return out, None, time.time() - t

def build(name="drv", profile=None, mains=None, verbose=False, omit=()):
    """Returns {main name: executable path}. mains: list of (name, source path)."""
    if mains is None: mains = [(name, VERIF + "/harness/drv.cpp")]
    profile = profile or os.environ.get("VERIF_PROFILE", "std")
    key0 = _header_hash()
    opts, hopts, lopts = PROFILES[profile]
    jobs = []
    for s in lib_sources():
        if any(s.endswith(o) for o in omit): continue
        jobs.append((s, hopts if s.endswith(HEAVY) else opts))
    if profile == "tsan": jobs.append((VERIF+"/harness/ompshim.cpp", ["-O1", "-g1", "-fsanitize=thread"]))
    mjobs = [(s, opts) for _, s in mains]
    # biggest first
    allj = sorted(jobs + mjobs, key=lambda j: (not j[0].endswith(HEAVY), -os.path.getsize(j[0])))
    res = {}
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        fut = {ex.submit(compile_one, s, o, key0): s for s, o in allj}
        errs = []
        for f in cf.as_completed(fut):
            o, e, t = f.result()
            if e: errs.append(e)
            elif verbose and t > 2: print("  %5.1fs %s" % (t, fut[f]))
            res[fut[f]] = o
    if errs: raise BuildError("\n".join(errs))
    lib = [res[s] for s, _ in jobs]
    exes = {}
    for n, s in mains:
        h = hashlib.sha256(("".join(lib) + res[s] + profile).encode()).hexdigest()[:24]
        exe = os.path.join(CACHE, "bin", n + "-" + h)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".tmp%d" % os.getpid()
            r = _sh(["g++", "-o", tmp, res[s]] + lib + lopts + LINK + mpi_flags()[1])
            if r.returncode != 0: raise BuildError("link failed: " + r.stdout[-4000:])
            os.replace(tmp, exe)
        exes[n] = exe
    _prune()
    return exes

def tool(name, flags=("-O1",), link=("-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-ldl"), shared=False):
    """a helper of our own that takes nothing from /repo (harness/<name>.cpp)"""
    src = VERIF + "/harness/%s.cpp" % name
    cmd = ["mpicxx"] + list(flags) + (["-shared", "-fPIC"] if shared else []) + ["-isystem", "/usr/include/hdf5/openmpi", src]
    exe = os.path.join(CACHE, "bin", name + "-" + hashlib.sha256((" ".join(cmd)).encode() + open(src, "rb").read()).hexdigest()[:24] + (".so" if shared else ""))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True); tmp = exe + ".tmp%d" % os.getpid()
        r = _sh(cmd + ["-o", tmp] + list(link))
        if r.returncode != 0: raise BuildError("tool %s: %s" % (name, r.stdout[-2000:]))
        os.replace(tmp, exe)
    else: os.utime(exe)
    return exe

def _prune(limit=6 << 30):
    fs = []
    for sub in ("obj", "bin"):
        d = os.path.join(CACHE, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try: st = os.stat(p); fs.append((st.st_mtime, st.st_size, p))
                except OSError: pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit: break
        try: os.unlink(p)
        except OSError: pass
        tot -= s

if __name__ == "__main__":
    t = time.time()
    mains = None
    print(build(profile=sys.argv[1] if len(sys.argv) > 1 else "std", verbose=True), "%.1fs" % (time.time() - t))
