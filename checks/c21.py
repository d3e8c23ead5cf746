"""C21: the workloads of the other monitors and the chain of main programs on a build with address and undefined-behaviour sanitizers, and small ones under valgrind memcheck (uninitialised values)."""
import os, sys, re, json, glob, time, subprocess, shutil, hashlib
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
import fw, build, prog, sanchain
here = os.path.dirname(os.path.abspath(__file__))
PROPS = ["C03", "C16", "C15", "C14", "C20", "C12", "C02", "C06", "C07", "C01", "C11", "C17", "C10", "C05", "C04", "C13", "C18", "C08", "C09", "C22"]
VGP = ["C16", "C20", "C14", "C11", "C17", "C05", "C07", "C12", "C06", "C18", "C04", "C08", "C22"]

def norm(s): return re.sub(r"0x[0-9a-f]+|\b\d+(\.\d+)?(e[+-]?\d+)?\b", "#", s)[:90]
def inrepo(p): return p.startswith(build.REPO+"/")
def fname(s): return re.split(r"[<(]", re.sub(r"\s*\[clone.*?\]", "", s).replace("(anonymous namespace)", "anon"))[0].strip().split(" ")[-1]

def san_reports(txt):
    """(key, detail, canary)"""
    for b in re.split(r"(?m)^(?==+\n==\d+==ERROR: AddressSanitizer)|^(?=\S+:\d+:\d+: runtime error)|^(?===\d+==ERROR: AddressSanitizer)", txt):
        m = re.search(r"==ERROR: AddressSanitizer: (\S+)", b); u = None if m else re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", b)
        if not m and not u: continue
        stack = []
        for l in b.split("\n"):
            f = re.match(r"\s+#(\d+) \S+ in (.*) (/\S+?):(\d+)", l)
            if f:
                if f[1] == "0" and stack: break
                stack.append((f[2], f[3], f[4]))
        repo = [x for x in stack if inrepo(x[1])]
        canary = any("harness/drv.cpp" in x[1] for x in stack) and not repo or bool(u and "harness/drv.cpp" in u[1])
        if u: key = "ub/%s/%s" % (norm(u[2]), fname(repo[0][0]) if repo else os.path.basename(u[1]))
        elif repo: key = "memory/%s/%s" % (m[1], fname(repo[0][0]))
        else: key = None
        if u and not inrepo(u[1]) and not repo: key = None
        yield key, b[:3000], canary

def vg_reports(path):
    try: r = ET.parse(path).getroot()
    except (ET.ParseError, OSError):	# the process was ended by a signal: the last error may be cut
        try: r = ET.fromstring(re.sub(r"(?s)(.*</error>).*", r"\1</valgrindoutput>", open(path, errors="replace").read()))
        except Exception: return
    for e in r.findall("error"):
        k = e.findtext("kind")
        if k.startswith("Leak") or k == "SyscallParam": continue
        fr = [(x.findtext("fn") or "?", (x.findtext("dir") or "")+"/"+(x.findtext("file") or "?"), x.findtext("line")) for x in e.find("stack").findall("frame")]
        repo = [x for x in fr if inrepo(x[1])]
        canary = any("harness/drv.cpp" in x[1] for x in fr) and not repo
        first = next((x for x in repo if not x[1].endswith("logger.h")), None)
        yield ("uninit/%s/%s" % (k, fname(first[0])) if first else None), k+"\n"+"\n".join("%s %s:%s" % x for x in fr[:14]), canary

def descendants(root):
    kids = {}
    for l in subprocess.run(["ps", "-eo", "pid=,ppid="], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
        if l.strip(): a, b = map(int, l.split()); kids.setdefault(b, []).append(a)
    out, todo = [], [root]
    while todo: todo += kids.get(todo[0], []); out += kids.get(todo.pop(0), [])
    return out

def run_jobs(jobs, T, least, profile, par=4):
    """(tag, dir, command, kind): runs them side by side; result None: not started within the budget"""
    t1 = time.time()
    def go(j):
        tag, d, cmd, kind = j
        if time.time()-t1 > T: return tag, None
        p = subprocess.Popen(cmd, env=dict(os.environ, VERIF_PROFILE=profile(kind)), stdout=open(d+"/out", "w"), stderr=subprocess.STDOUT, start_new_session=True)
        try: return tag, p.wait(timeout=max(least, T*1.2-(time.time()-t1)))
        except subprocess.TimeoutExpired:
            for k in descendants(p.pid)+[p.pid]:
                try: os.kill(k, 9)
                except OSError: pass
            p.wait(); return tag, "timeout"
    with ThreadPoolExecutor(par) as ex: return dict(ex.map(go, jobs))

def canary(rep):
    """the sanitizers must see deliberate errors of the driver"""
    ok = {}
    def env(o): return {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=0:verify_asan_link_order=0:log_path=%s/x" % o, "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0:log_path=%s/y" % o}
    for what, profile in (("heap", "asan"), ("ub", "asan"), ("uninit", None)):
        o = fw.scratch()+"/canary-"+what; os.makedirs(o); exe = build.build("drv", profile)["drv"]; run0 = fw.run_mpi
        if profile is None: fw.run_mpi = lambda cmd, *a, **k: run0(["valgrind", "-q", "--leak-check=no", "--xml=yes", "--xml-file=%s/vg.%%p.xml" % o]+list(cmd), *a, **k)
        try:
            s = fw.Session(exe, 1, 1, N=16, Lz=16, timeout=120, env=env(o)); s.cmd("canary", what)
            try: s.run()
            except fw.SessionError: pass
            open(o+"/x.out", "w").write(s.out or "")
        finally: fw.run_mpi = run0
        seen = any(c for f in glob.glob(o+"/[xy].*") for _, _, c in san_reports(open(f, errors="replace").read())) or any(c for f in glob.glob(o+"/vg.*") for _, _, c in vg_reports(f))
        ok[what] = seen; rep.true(seen, "canary/"+what, "the monitor did not see a deliberate %s error of the driver" % what)
    return ok

def main(tier):
    q = tier == "quick"
    rep = fw.Report("C21", tier, "one sanitized session (driver script or main program) whose sanitizer log was read; non-trivial: distinct driver commands, programs and rank counts executed",
                    ["ASan does not see overruns inside one allocation (other monitors compare values there); valgrind reports only uninitialised values that decide a branch or an address; external libraries (MPI, HDF5, FFTW) are not instrumented"])
    fw.scratch(); t = time.time()
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda p: build.build("drv", p), ["asan", None]))
        list(ex.map(lambda a: prog.main_exe(*a), [(n, "asan") for n in sanchain.NAMES]+[(n, None) for n in sanchain.NAMES]))
    rep.extra["build_seconds"] = round(time.time()-t)
    rep.extra["canaries"] = canary(rep)
    out = fw.scratch()+"/san"; jobs = []; T = float(os.environ.get("C21_BUDGET", 200 if q else 2400)); t1 = time.time()
    py = sys.executable
    def job(tag, script, args, vg, env=None): d = out+"/"+tag; os.makedirs(d); jobs.append((tag, d, [py, os.path.join(here, script)]+[a.replace("@", d) for a in args], vg))
    nc = len(sanchain.cases(tier))
    for i in range(nc): job("chain%d" % i, "sanchain.py", ["@", str(i)], False)
    for p in PROPS: job("asan-"+p, "sanworker.py", [p, str(T*.25 if q else T*.5), "0.45" if q else "1", "@"], False)
    for i in ([0] if q else range(0, nc, 3)): job("vgchain%d" % i, "sanchain.py", ["@", "vg", str(i)], True)
    for p in (VGP if q else PROPS): job("vg-"+p, "sanworker.py", [p, str(T*.12 if q else T*.3), "0.01" if q else "0.12", "@", "vg"], True)
    res = run_jobs(sorted(jobs, key=lambda j: not j[0].startswith(("asan-C03", "vgchain", "chain"))), T, 60 if q else 1800, lambda vg: "std" if vg else "asan")
    cmds, ranks, sess, logs, dropped, harness = {}, {}, 0, 0, [], 0
    for tag, d, _, vg in jobs:
        if res[tag] is None: dropped.append(tag); continue
        if res[tag] != 0: rep.inconclusive("%s ended with %s: %s" % (tag, res[tag], open(d+"/out").read()[-200:]))
        for f in glob.glob(d+"/stat-*.json"):
            s = json.load(open(f)); sess += s["sessions"]; rep.evals += s["sessions"]
            if s.get("errors"): rep.inconclusive(tag+": "+s["errors"][:200])
            for k, n in s["commands"].items(): cmds[k] = cmds.get(k, 0)+n; rep.distinct.add((k, vg))
            for k, n in s["ranks"].items(): ranks[k] = ranks.get(k, 0)+n; rep.distinct.add(("ranks", k, vg))
        found = {}
        for f in glob.glob(d+"/vg.*.xml" if vg else d+"/*san.[0-9]*"):
            logs += 1
            for key, det, can in (vg_reports(f) if vg else san_reports(open(f, errors="replace").read())):
                if key is None: harness += 1; continue
                found.setdefault(key, (det, f))
        for key, (det, f) in found.items():
            ctx = f.replace(d, d+"/found"); det = "in %s\n%s" % (tag, det)
            if os.path.exists(ctx): det += "\n\n"+open(ctx, errors="replace").read()[-6000:]
            rep.violation(key, det)
    rep.extra.update(sessions=sess, logs_read=logs, commands=cmds, ranks=ranks, jobs_not_started=dropped, reports_in_harness_or_libraries_only=harness, job_seconds=round(time.time()-t1))
    return rep.finish(60)

