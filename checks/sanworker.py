"""Runs part of another property's workload on the sanitizer build; only the sanitizers judge. usage: sanworker.py <prop> <budget s> <fraction> <out dir> [vg|ts]
vg: the plain build under valgrind memcheck, small sessions only (use of uninitialised values, which the address sanitizer does not see); ts: the thread-sanitizer build"""
import sys, os, time, json, hashlib, glob, re, threading, importlib, io, contextlib
here = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [here, os.path.join(os.path.dirname(here), "lib")]
import fw, prog, build

def main(prop, budget, frac, out, vg=False, ts=False):
    t0 = time.time(); lock = threading.Lock(); st = dict(prop=prop, sessions=0, skipped=0, lines=0, nonzero=0, timeouts=0, commands={}, ranks={}, errors=""); n = [0]; fw.scratch()
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=0:verify_asan_link_order=0:allocator_may_return_null=1:log_path=%s/asan" % out
    os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/ubsan" % out
    def keep():
        with lock: n[0] += 1; k = n[0]
        if time.time()-t0 > budget: raise Stop()
        if k == 1: return True
        return int(hashlib.sha256(("%s/%s/%d" % (fw.SEED, prop, k)).encode()).hexdigest()[:8], 16)/2**32 < frac
    class Stop(Exception): pass
    fw.HANG_CPU = 1e9	# instrumented runs are slow
    if ts: fw.tsan(out)
    else: fw.tee_reports(out)
    if vg:
        mpi0 = fw.run_mpi
        fw.run_mpi = prog.fw.run_mpi = lambda cmd, *a, **k: mpi0(["valgrind", "-q", "--leak-check=no", "--xml=yes", "--xml-file=%s/vg.%%p.xml" % out]+list(cmd), *a, **k)
    class Rep(fw.Report):
        def violation(s, key, detail, session=None): return False
        def inconclusive(s, msg): pass
        def session_error(s, *a, **k): pass
        def finish(s, *a): return 0
    fw.Report = Rep; run0 = fw.Session.run; prun0 = prog.Prog.run; seen = set()
    def note(s, cmds):
        with lock:
            st["sessions"] += 1; st["ranks"][str(s.ranks)] = st["ranks"].get(str(s.ranks), 0)+1
            for c in cmds: st["commands"][c] = st["commands"].get(c, 0)+1
            st["lines"] += len(cmds)
    def size(s): return int(s.N or 64)**2*int(getattr(s, "Lz", 0) or getattr(s, "lz", 0) or 64)*s.ranks
    def attach(s):
        for f in glob.glob(out+"/*san.[0-9]*"):
            with lock:
                if f in seen: continue
                seen.add(f)
            try: txt = open(f, errors="replace").read()
            except OSError: continue
            os.makedirs(out+"/found", exist_ok=True)
            open(out+"/found/"+os.path.basename(f), "w").write("%s N=%s ranks=%s threads=%s args=%s\n%s\n" % (prop, s.N, s.ranks, s.threads, " ".join(map(str, s.args)), txt)+"\n== script\n"+"\n".join(getattr(s, "lines", []))[:20000])
    def run(s, *a, **k):
        if (vg and size(s) > 40000) or not keep():
            with lock: st["skipped"] += 1
            raise fw.SessionError("skipped", "")
        s.timeout = max(s.timeout, 240); note(s, [l.split()[0] for l in s.lines])
        try: return run0(s, *a, **k)
        except fw.SessionError as e:
            with lock: st["timeouts" if e.kind in ("timeout", "hang") else "nonzero"] += 1
            raise
        finally: attach(s)
    def prun(s):
        if time.time()-t0 > budget: raise Stop()
        if (vg and size(s) > 40000) or not keep(): s.rc, s.log = "skipped", ""; st["skipped"] += 1; return s
        s.timeout = max(s.timeout, 240); note(s, ["program"]); prun0(s); attach(s)
        if s.rc != 0: st["timeouts" if s.rc in ("timeout", "hang") else "nonzero"] += 1
        return s
    fw.Session.run = run; prog.Prog.run = prun
    with contextlib.redirect_stdout(io.StringIO()):
        try: importlib.import_module(prop.lower()).main("quick")
        except Stop: st["stopped"] = True
        except build.BuildError as e: st["errors"] = "build: "+str(e)[-1500:]
        except Exception as e: st["errors"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    st["seconds"] = time.time()-t0
    json.dump(st, open(out+"/stat-%s.json" % prop, "w"))

if __name__ == "__main__": main(sys.argv[1], float(sys.argv[2]), float(sys.argv[3]), sys.argv[4], sys.argv[5:] == ["vg"], sys.argv[5:] == ["ts"])
