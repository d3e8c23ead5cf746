"""C19: the workloads of the other monitors and the chain of main programs on a thread-sanitizer build whose OpenMP run-time is one the sanitizer understands (harness/ompshim.cpp)."""
import os, sys, re, json, glob, time
from concurrent.futures import ThreadPoolExecutor
import fw, build, prog, sanchain, c21
here = os.path.dirname(os.path.abspath(__file__))
PROPS = ["C03", "C16", "C15", "C12", "C10", "C11", "C02", "C17", "C09", "C13", "C20", "C14", "C07", "C01", "C05", "C04", "C18", "C08", "C06", "C22"]

def fname(s): return re.split(r"[<(]", re.sub(r"\s*\[clone.*?\]", "", s).replace("(anonymous namespace)", "anon"))[0].strip().split(" ")[-1]

def races(txt):
    """(key, detail, canary) of every report; key: the functions of the two accesses"""
    for b in txt.split("WARNING: ThreadSanitizer: ")[1:]:
        if not b.startswith("data race"): continue
        fns, can, files = [], False, []
        for part in b.split("\n\n")[:2]:
            fr = re.findall(r"#\d+ (.+?) (/\S+?):(\d+)", part)
            repo = [f for f in fr if c21.inrepo(f[1])]
            if repo: fns.append(fname(repo[0][0])); files.append([os.path.basename(f[1]) for f in repo])
            elif any("harness/drv.cpp" in f[1] for f in fr): can = True
        if len(files) == 2 and all("gravityPaxionXeon.h" in f for f in files) and "Location is heap block" in b: yield "race/hybrid-relaxation-in-place", b[:4000], can; continue
        yield ("race/"+"|".join(sorted(set(fns))) if fns else None), b[:4000], can

def main(tier):
    q = tier == "quick"
    rep = fw.Report("C19", tier, "one session (driver script or main program) with at least three threads per rank on the thread-sanitizer build whose report was read; distinct: driver commands, programs and rank counts",
                    ["the sanitizer sees conflicting accesses of the executed parallel regions that no synchronisation orders; non-temporal vector stores and external libraries are not instrumented"])
    fw.scratch(); t = time.time()
    build.build("drv", "tsan")
    with ThreadPoolExecutor(6) as ex: list(ex.map(lambda n: prog.main_exe(n, "tsan"), sanchain.NAMES))
    rep.extra["build_seconds"] = round(time.time()-t)
    o = fw.scratch()+"/canary"; os.makedirs(o); run0, env0 = fw.run_mpi, dict(os.environ); fw.tsan(o)
    s = fw.Session(build.build("drv", "tsan")["drv"], 1, 3, N=16, Lz=16, timeout=120); s.cmd("canary", "race")
    try: s.run()
    except fw.SessionError: pass
    fw.run_mpi = run0; os.environ.clear(); os.environ.update(env0)
    seen = any(c for f in glob.glob(o+"/tsan.*") for _, _, c in races(open(f, errors="replace").read()))
    rep.true(seen, "canary", "the monitor did not see a deliberate race of the driver"); rep.extra["canary"] = seen
    out = fw.scratch()+"/san"; jobs = []; T = float(os.environ.get("C19_BUDGET", 150 if q else 2400)); t1 = time.time()
    def job(tag, script, args): d = out+"/"+tag; os.makedirs(d); jobs.append((tag, d, [sys.executable, os.path.join(here, script)]+[a.replace("@", d) for a in args], None))
    for i in range(len(sanchain.cases(tier))): job("chain%d" % i, "sanchain.py", ["@", "ts", str(i)])
    for p in PROPS: job("tsan-"+p, "sanworker.py", [p, str(T*.25 if q else T*.5), "0.5" if q else "1", "@", "ts"])
    res = c21.run_jobs(jobs, T, 60 if q else 1800, lambda k: "tsan")
    cmds, ranks, sess, logs, lib, regions, threads, dropped, cut = {}, {}, 0, 0, 0, 0, 0, [], []
    for tag, d, _, _ in jobs:
        if res[tag] is None: dropped.append(tag); continue
        if res[tag] == "timeout": cut.append(tag)	# what it reported until then counts
        elif res[tag] != 0: rep.inconclusive("%s ended with %s: %s" % (tag, res[tag], open(d+"/out").read()[-200:]))
        for f in glob.glob(d+"/stat-*.json"):
            s = json.load(open(f)); sess += s["sessions"]; rep.evals += s["sessions"]
            if s.get("errors"): rep.inconclusive(tag+": "+s["errors"][:200])
            for k, n in s["commands"].items(): cmds[k] = cmds.get(k, 0)+n; rep.distinct.add(k)
            for k, n in s["ranks"].items(): ranks[k] = ranks.get(k, 0)+n; rep.distinct.add(("ranks", k))
        for f in glob.glob(d+"/omp.*"):
            a = open(f).read().split()
            if len(a) == 2: regions += int(a[0]); threads += int(a[1])
        found = {}
        for f in glob.glob(d+"/tsan.*"):
            logs += 1
            for key, det, _ in races(open(f, errors="replace").read()):
                if key is None: lib += 1; continue
                found.setdefault(key, det)
        for key, det in found.items(): rep.violation(key, "in %s\n%s" % (tag, det))
    rep.extra.update(sessions=sess, parallel_regions=regions, threads_started=threads, commands=cmds, ranks=ranks, jobs_not_started=dropped, jobs_cut_short=cut, reports_in_libraries_only=lib, job_seconds=round(time.time()-t1))
    return rep.finish(60)
