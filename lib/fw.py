"""Session runner + verdict bookkeeping shared by all monitors."""
import itertools, os, sys, json, time, shutil, subprocess, tempfile, signal, hashlib, atexit
import numpy as np
import build as B

VERIF = B.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1")

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > 4 << 30 else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="jaxmon.", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(3))
    return _scratch

def rng(*key):
    h = hashlib.sha256(("/".join(map(str, (SEED,) + key))).encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))

class SessionError(Exception):
    def __init__(self, kind, msg): super().__init__(msg); self.kind = kind

def descendants(pid):
    """pids of the processes below pid (mpirun puts its children into process groups of their own)"""
    par = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try: par.setdefault(int(open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, ValueError, IndexError): pass
    out, todo = [], [pid]
    while todo:
        for k in par.get(todo.pop(), []): out.append(k); todo.append(k)
    return out

def run_mpi(cmd, ranks, threads, cwd, env_extra=None, timeout=300):
    env = dict(os.environ); env.update(MPIENV)
    env["OMP_NUM_THREADS"] = str(threads); env["OMP_WAIT_POLICY"] = "PASSIVE"
    env["AXIONS_OUTPUT"] = os.path.join(cwd, "out", "m"); env["AXIONS_WISDOM"] = os.path.join(cwd, "wis")
    env["TMPDIR"] = scratch()
    if env_extra: env.update(env_extra)
    full = ["mpirun", "--allow-run-as-root", "-n", str(ranks)] + cmd
    p = subprocess.Popen(full, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        kids = descendants(p.pid); rc = "timeout"
        a = cpu_seconds(kids); time.sleep(8); b = cpu_seconds(kids)
        used = [b[k] for k in b if k in a]
        # no rank computes, or every rank has spun far longer than any session of the checks computes: the run hangs, the machine is not just slow
        if used and (all(b[k]-a[k] < 0.05 for k in b if k in a) or min(used) > max(HANG_CPU, 0.22*timeout)): rc = "hang"
        p.send_signal(signal.SIGTERM)
        try: p.wait(5)
        except subprocess.TimeoutExpired: pass
        for k in [p.pid]+kids:
            try: os.kill(k, signal.SIGKILL)
            except OSError: pass
        p.stdout.close(); p.wait()
        return rc, ""

HANG_CPU = 20; hung = []	# hung: sessions that hung twice; from then on runs get less time
def cpu_seconds(pids):
    """CPU time of the ranks (the processes started by mpirun that have our environment's program)"""
    out = {}
    for k in pids:
        try: f = open("/proc/%d/stat" % k).read(); name, r = f[f.index("(")+1:f.rindex(")")], f[f.rindex(")")+2:].split()
        except (OSError, ValueError): continue
        if name not in ("mpirun", "orted", "valgrind") and r[0] != "Z": out[k] = (int(r[11])+int(r[12]))/os.sysconf("SC_CLK_TCK")
    return out
def retrying(run, timeout, retry=True):
    """a run that did not end in time is repeated once; two hangs are a hang"""
    if len(hung) >= 8: return "skipped"	# the verdict is clear: the rest would take hours
    if hung: timeout = min(timeout, 45)
    rc = run(timeout)
    if rc in ("timeout", "hang") and retry and len(hung) < 3:
        rc2 = run(timeout); rc, rc2 = rc2, rc
        if rc == "hang" and rc2 == "hang": hung.append(1)
        elif rc == "hang": rc = "timeout"
    elif rc == "hang":
        if len(hung) < 3: rc = "timeout"
        else: hung.append(1)
    return rc

def tee_reports(out):
    """keeps what the undefined-behaviour sanitizer prints: it goes to the standard error stream, whatever its log_path"""
    run, n = run_mpi, itertools.count(1)
    def f(cmd, *a, **k):
        rc, log = run(cmd, *a, **k)
        if "runtime error:" in log:
            i = log.index("runtime error:"); open("%s/uout-san.%d" % (out, next(n)), "w").write(log[max(0, log.rfind("\n", 0, i)+1):][:400000])
        return rc, log
    globals()["run_mpi"] = f

def tsan(out, least=3):
    """runs on the thread-sanitizer build: at least three threads in every rank"""
    run = run_mpi
    os.environ["TSAN_OPTIONS"] = "ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=0:report_thread_leaks=0:report_signal_unsafe=0:report_mutex_bugs=0:log_path=%s/tsan" % out
    os.environ["PMIX_MCA_gds"] = "hash"; os.environ["OMPSHIM_STAT"] = out+"/omp"	# the other one maps memory at addresses the sanitizer uses
    globals()["run_mpi"] = lambda cmd, ranks, threads, *a, **k: run(cmd, ranks, max(threads, least), *a, **k)

_sid = 0
class Session:
    """One process group executing a script; results are read after run()."""
    def __init__(self, exe, ranks=1, threads=2, args=(), N=16, Lz=None, prec="double", timeout=90, env=None, estimate=True):
        global _sid
        _sid += 1
        self.dir = os.path.join(scratch(), "s%05d" % _sid); os.makedirs(self.dir + "/out/m"); os.makedirs(self.dir + "/wis")
        self.exe, self.ranks, self.threads, self.timeout = exe, ranks, threads, timeout
        self.args = list(args); self.N = N; self.Lz = Lz or max(4, N // ranks); self.prec = prec
        self.lines = []; self.nf = 0; self.env = dict(env or {}); self.estimate = estimate
        self.events = None; self.dumps = {}
    def cmd(self, *a):
        self.lines.append(" ".join(str(x) if not isinstance(x, float) else repr(float(x)) for x in a)); return len(self.lines)
    def load(self, what, arr):
        self.nf += 1
        f = os.path.join(self.dir, "i%d.bin" % self.nf); np.ascontiguousarray(arr).tofile(f)
        return self.cmd("load", what, f)
    def dump(self, what, dtype, shape):
        self.nf += 1
        f = os.path.join(self.dir, "o%d.bin" % self.nf); self.dumps[self.nf] = (f, dtype, shape)
        self.cmd("dump", what, f); return self.nf
    def get(self, h):
        f, dt, sh = self.dumps[h]
        a = np.fromfile(f, dtype=dt)
        if a.size != int(np.prod(sh)): raise SessionError("data", "dump %s has %d elements, expected %s" % (f, a.size, sh))
        return a.reshape(sh)
    def run(self, retry_timeout=True, expect_end=True):
        sc = os.path.join(self.dir, "script"); lg = os.path.join(self.dir, "log")
        open(sc, "w").write("\n".join(self.lines) + "\n")
        base = ["--size", str(self.N), "--depth", str(self.Lz), "--zgrid", str(self.ranks), "--verbose", "0"]
        if self.prec: base += ["--prec", self.prec]
        env = dict(DRV_SCRIPT=sc, DRV_LOG=lg); env.update(self.env)
        if self.estimate: env["DRV_ESTIMATE"] = "1"
        def once(timeout):
            if os.path.exists(lg): os.unlink(lg)
            rc, self.out = run_mpi([self.exe] + base + self.args, self.ranks, self.threads, self.dir, env, timeout); return rc
        self.out = ""; rc = self.rc = retrying(once, self.timeout, retry_timeout)
        out = self.out
        self.events = []
        if os.path.exists(lg):
            for l in open(lg):
                try: self.events.append(json.loads(l))
                except ValueError: pass
        self.complete = bool(self.events) and self.events[-1]["ev"] == "end"
        if expect_end and not (rc == 0 and self.complete):
            raise SessionError(rc if rc in ("timeout", "hang", "skipped") else "crash",
                               "driver ended with %s after script line %s\n%s" % (rc, self.last_line(), out[-3000:]))
        return self
    def last_line(self):
        return max([e["ln"] for e in self.events], default=0) if self.events else 0
    def ev(self, name, k=None):
        r = [e for e in self.events if e["ev"] == name]
        return r if k is None else r[k]
    def at(self, ln):
        for e in self.events:
            if e["ln"] == ln: return e
        raise SessionError("data", "no event for line %d" % ln)
    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def run_all(sessions, workers=4):
    """run several sessions side by side; s.err holds the SessionError, or None"""
    from concurrent.futures import ThreadPoolExecutor
    def one(s):
        s.err = None
        try: s.run()
        except SessionError as e: s.err = e
        return s
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(one, sessions))

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

class Report:
    """Collects observations and violations for one property, prints the verdict and writes evidence."""
    def __init__(self, prop, tier, technique_rule, assumptions=(), level="exploration"):
        self.prop, self.tier, self.rule, self.level = prop, tier, technique_rule, level
        self.assumptions = list(assumptions)
        self.t0 = time.time(); self.evals = 0; self.distinct = set(); self.samples = []; self.viol = []; self.incon = []
        self.extra = {}; self.replay_dir = os.path.join(VERIF, ".cache", "replay", prop)
        self.known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "open"]
        self.known_hit = {}; Report.last = self
    last = None
    def observe(self, key, n=1, sample=None):
        self.evals += n; self.distinct.add(str(key))
        if sample is not None and len(self.samples) < 12: self.samples.append(sample)
    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n
    def maxof(self, name, v):
        self.extra[name] = max(self.extra.get(name, 0), float(v))
    def inconclusive(self, msg):
        self.incon.append(msg[:600]); print("INCONCLUSIVE %s: %s" % (self.prop, msg[:600]), flush=True)
    def violation(self, key, detail, session=None):
        """key: stable identifier of what failed (matched against known findings by exact key)."""
        for k in self.known:
            if key == k["key"] or key in k.get("keys", []):
                self.known_hit.setdefault(k["key"], 0); self.known_hit[k["key"]] += 1
                return False
        rp = None
        if len(self.viol) < 5:
            os.makedirs(self.replay_dir, exist_ok=True)
            rp = os.path.join(self.replay_dir, "v%d" % len(self.viol))
            shutil.rmtree(rp, ignore_errors=True); os.makedirs(rp)
            if session is not None:
                try:
                    sz = sum(os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(session.dir) for f in fs)
                    if sz < 64 << 20: shutil.copytree(session.dir, rp + "/session")
                except OSError: pass
            open(rp + "/detail.txt", "w").write("property %s seed %d tier %s\nkey: %s\n%s\n" % (self.prop, SEED, self.tier, key, detail))
        self.viol.append((key, detail, rp))
        if len(self.viol) <= int(os.environ.get("VMAX", "8")): print("  violation[%s] %s" % (key, str(detail)[:500]), flush=True)
        return True
    def close(self, a, b, tol, key, detail="", session=None, scale=None):
        """assert max|a-b| <= tol*scale with NaN-awareness; returns error"""
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            self.violation(key, "%s: shape %s vs %s" % (detail, a.shape, b.shape), session); return np.inf
        d = np.abs(a - b); sc = scale if scale is not None else max(1e-300, float(np.max(np.abs(b))))
        bad = ~(d <= tol * sc)
        e = float(np.nanmax(d) / sc) if d.size and not np.all(np.isnan(d)) else (0. if not d.size else np.inf)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.shape else ()
            self.violation(key, "%s: %d/%d sites off, worst rel %.3g (tol %.3g) at %s: got %s want %s" % (detail, int(bad.sum()), d.size, e, tol, i, a[i], b[i]), session)
        return e
    def true(self, cond, key, detail="", session=None):
        if not cond: self.violation(key, detail, session)
        return bool(cond)
    def session_error(self, e, key, s=None, crash_is_violation=True):
        if e.kind == "skipped": return self.count("not run: eight sessions hung before")
        if s is not None and getattr(s, "out", ""): print("  first output: " + s.out[:700].replace("\n", "\n  "))
        print("session error (%s): %s" % (e.kind, str(e)[-1500:]), flush=True)
        if e.kind == "timeout" or (e.kind == "crash" and not crash_is_violation):
            self.inconclusive("%s: %s" % (key, e))
        else:
            self.violation(key + ":" + e.kind, str(e), s)
    def finish(self, minimum=1):
        if self.evals < minimum and not self.viol:
            self.viol.append(("coverage", "only %d of at least %d planned observations were made" % (self.evals, minimum), None))
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": int(self.evals), "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples}
        cov.update(self.extra)
        if self.incon: cov["inconclusive"] = self.incon
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol),
              "known_findings_seen": self.known_hit}
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1, default=float)
        for k in self.known:
            n = self.known_hit.get(k["key"], 0)
            print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (self.prop, k["what"], n))
        print("%s: %d evaluations, %d distinct, %d violations, %.1fs" % (self.prop, self.evals, len(self.distinct), len(self.viol), time.time() - self.t0))
        if self.viol:
            ks = {}
            for v in self.viol: ks[v[0]] = ks.get(v[0], 0)+1
            print("violated keys: " + "; ".join("%s x%d" % kv for kv in sorted(ks.items())))
            key, detail, rp = self.viol[0]
            print("VIOLATION property=%s replay=%s" % (self.prop, rp or "none"))
            return 1
        return 0
