"""The chain of main programs on one small simulation, for the sanitizers: vaxion3d, redu, WKVaxion, paxion3d, gadgetme, gravi3. usage: sanchain.py <out dir> [vg|ts] <case>"""
import sys, os, json, time, shutil
here = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [here, os.path.join(os.path.dirname(here), "lib")]
import fw, prog, build

NAMES = ["vaxion3d", "redu", "WKVaxion", "paxion3d", "gadgetme", "gravi3"]

def cases(tier):
    out = []
    for i in range(4 if tier == "quick" else 24):
        g = fw.rng("C21chain", i); ranks = int([1, 2][i % 2]); N = 16 if i % 4 < 3 else 32
        out.append(dict(i=i, ranks=ranks, N=N, prec=["single", "double", "single"][i % 3], ng=int(g.integers(1, 4)), prop="rkn4", qcd=str(g.choice(["4.0", "7.0"])), grav=bool(g.integers(0, 2)), meas=int(g.integers(0, 1 << 20)), seed=int(g.integers(0, 1 << 30)), p2=bool(g.integers(0, 2))))
    return out

def chain(c, note=lambda name, rc: None):
    N, r = c["N"], c["ranks"]; lz = N//r; dirs = []
    A = ["--prec", c["prec"], "--prop", c["prop"], "--wDz", "1.0", "--sst0", "3", "--lap", c["ng"], "--qcd", c["qcd"], "--msa", "1.0", "--lsize", "6.0", "--dump", "10", "--p2DmapE", "--spmask", "1", "--spKGV", "1",
         "--rmask", "4.0", "--nologmpi", "--wTime", "1.0", "--fftplan", "64"]
    if c["p2"]: A += ["--p2Dmap", "--p2DmapP"]
    env = {"SHIM_SEED": str(c["seed"])}
    def go(name, args, src=None, pick=None, rk=r):
        p = prog.Prog(EXE[name], args, rk, 2, N, N//rk, env=env, timeout=240)
        if src is not None:
            for f in pick or os.listdir(src.out):
                if os.path.isfile(src.out+"/"+f): shutil.copy(src.out+"/"+f, p.out+"/"+f)
        for d in ("pout", "wout"): os.makedirs(p.dir+"/"+d, exist_ok=True)
        p.run(); dirs.append(p); note(name, p); return p
    v = go("vaxion3d", A+["--ctype", "kmax", "--kmax", "2", "--kcr", "1.0", "--zi", "0.5", "--zf", "4.0", "--steps", "80", "--p3D", "2", "--meas", c["meas"]])
    fs = v.files("axion.")
    if fs:
        I = fs[-1]; f = "axion.%05d" % I
        go("redu", A+["--redmp", N//2, "--index", I, "--ftype", "axion"], v, [f])
        w = go("WKVaxion", A+["--ftype", "axion", "--zf", "40", "--steps", "3", "--index", I, "--meas", 16384], v, [f])
        ws = [k for k in w.files("axion.") if k > I]
        if ws:
            K = ws[-1]; fk = "axion.%05d" % K
            p = go("paxion3d", A+["--p3D", "2", "--ftype", "axion", "--index", K, "--zf", "60", "--steps", "10", "--meas", c["meas"] & 16384+32768]+(["--gravity", "5e-10", "--beta", "0.0"] if c["grav"] else []), w, [fk])
            go("gravi3", A+["--ftype", "axion", "--gravity", "5e-10", "--index", K], w, [fk], 1)
            ps = [k for k in p.files("axion.") if k > K] or [k for k in p.files("axion.") if k != K]
            if ps:
                P = ps[-1]; fp = "axion.%05d" % P
                for ty in ["void", "halo"][:c["prec"] == "single" and 2 or 0]:	# double precision is not supported there
                    # gadgetme reads $AXIONS_OUTPUT/axion.<index>
                    go("gadgetme", ["--gadtype", ty, "--kcr", "0.1", "--L1_pc", "0.025", "--index", P, "--nologmpi"], p, [fp], 1)	# on several ranks the balancing of particles can dead-lock
                go("gravi3", A+["--ftype", "axion", "--gravity", "5e-10", "--index", P], p, [fp], 1)
    for p in dirs: p.clean()

EXE = {}
def main(out, vg, ts, which):
    t0 = time.time(); fw.scratch(); os.makedirs(out+"/found", exist_ok=True); st = dict(prop="chain%s" % which, sessions=0, nonzero=0, timeouts=0, skipped=0, commands={}, ranks={}, runs=[], errors="")
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=0:verify_asan_link_order=0:allocator_may_return_null=1:log_path=%s/asan" % out
    os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/ubsan" % out
    if ts: fw.tsan(out)
    else: fw.tee_reports(out)
    if vg:
        mpi0 = fw.run_mpi
        fw.run_mpi = prog.fw.run_mpi = lambda cmd, *a, **k: mpi0(["valgrind", "-q", "--leak-check=no", "--xml=yes", "--xml-file=%s/vg.%%p.xml" % out]+list(cmd), *a, **k)
    for n in NAMES: EXE[n] = prog.main_exe(n)
    c = cases("thorough")[int(which)]
    def note(name, p):
        st["sessions"] += 1; st["commands"][name] = st["commands"].get(name, 0)+1; st["ranks"][str(p.ranks)] = st["ranks"].get(str(p.ranks), 0)+1
        st["runs"].append([name, str(p.rc), " ".join(map(str, p.args)), p.log[-300:] if p.rc else ""])
        if p.rc: st["timeouts" if p.rc in ("timeout", "hang") else "nonzero"] += 1
        open(out+"/pid-%d.txt" % st["sessions"], "w").write("%s rc=%s %s" % (name, p.rc, " ".join(map(str, p.args))))
    try: chain(c, note)
    except Exception as e: st["errors"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    st["seconds"] = time.time()-t0; json.dump(st, open(out+"/stat-chain%s.json" % which, "w"))

if __name__ == "__main__": main(sys.argv[1], "vg" in sys.argv, "ts" in sys.argv, sys.argv[-1])
