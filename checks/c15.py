"""C15: runs of the real main program stopped at any step, restarted and compared with the run that was never stopped."""
import os, shutil
import numpy as np
import fw, h5, prog, build, c16b
from ref import *

def case(i, tier):
    g = fw.rng("C15", i, tier); c = c16b.case(int(g.integers(0, 6)) if i % 4 else 5, "c15/%s/%d" % (tier, i)); c["i"] = i; c["g"] = g
    if i % 7 == 3: c["args"] += ["--msa", "0.9"]; c["msa"] = True
    c["dump"] = int(g.integers(1, 9)) if not c["theta"] else c["dump"]
    bits = c["bits"] | 4096; a = c["args"]
    for o, v in (("--meas", bits), ("--dump", c["dump"]), ("--p3D", 31), ("--meas2theta", c["m2t"] | 1)): a[a.index(o)+1] = str(v)
    a += ["--fftplan", "64"]	# the same transforms in every run
    if c["wdz"]: a[a.index("--steps")+1] = str(c["steps"]*20)
    if c["theta"]: a[a.index("--sst0")+1] = str(int(g.choice([0, 1, 1, 3])))
    if c["theta"] and g.random() < .5: a += ["--dwgam", "%.2f" % g.uniform(.3, 3)]
    c["kick"] = i % 20 == 11
    if c["kick"]: a += ["--kickalpha", "0.2"]
    c["stoprank"] = str(g.choice(["all", "0", str(c["ranks"]-1)])); c["env"] = {}
    return c

def skip(k):
    return k in ("/@Wall time [s]", "/@Prop step #", "/@Current step")

def same(rep, p, q, pre, idx, key, det, tol, pair=None):
    """two files of two runs: every attribute and dataset"""
    ia, ib = pair or (idx, idx)
    try: A, B = h5.File(p.out+"/%s%05d" % (pre, ia)), h5.File(q.out+"/%s%05d" % (pre, ib))
    except IOError as e: rep.true(False, key+"/unreadable", str(e)+"; "+det, q); return
    if not rep.true(set(A.attrs) == set(B.attrs) and set(A.dsets) == set(B.dsets), key+"/contents", "%s%d: %s; %s" % (pre, idx, sorted(set(A.attrs) ^ set(B.attrs) | set(A.dsets) ^ set(B.dsets))[:5], det), q): return
    for k, v in A.attrs.items():
        w = B.attrs[k]; rep.evals += 1
        if skip(k) or v == w: continue
        if isinstance(v, str) or isinstance(w, str): rep.true(False, key+"/attr/"+k, "%s%d %s: %r in the uninterrupted run, %r in the resumed one; %s" % (pre, idx, k, v, w, det), q)
        else: rep.close(np.float64(w), np.float64(v), tol, key+"/attr/"+k, "%s%d %s; %s" % (pre, idx, k, det), q, scale=max(abs(float(v)), 1e-12))
    for k, x in A.arr.items():
        y = B.arr[k]; rep.evals += x.size
        if x.tobytes() == y.tobytes(): continue
        if x.shape != y.shape: rep.true(False, key+"/shape", k+" "+det, q); continue
        if x.dtype.kind != "f" or k in ("/m", "/v"): rep.true(False, key+"/data"+k, "%s%d %s: %d of %d values differ, largest by %.3g of %.3g; %s" % (pre, idx, k, int((x != y).sum()), x.size, np.abs(x.astype(float)-y).max(), np.abs(x.astype(float)).max(), det), q)
        else: rep.close(y.astype(float), x.astype(float), tol, key+"/data"+k, "%s%d %s; %s" % (pre, idx, k, det), q, scale=max(np.abs(x).max(), 1e-300))

def table(p, c):
    k = np.arange(int(np.sqrt(3)*c["N"]/2)+3); open(p.dir+"/initialspectrum.dat", "w").write("\n".join("%.17g %.17g" % (.3*np.exp(-x/3.)/(1+x), .1*np.exp(-x/3.)) for x in k))

def script(c, shim, exe):
    """uninterrupted run, run stopped (once or twice) and resumed, run told to save"""
    g = c["g"]; env = dict(LD_PRELOAD=shim, SHIM_SEED=str(c["i"])); mk = lambda e=(): prog.Prog(exe, c["args"], c["ranks"], c["threads"], c["N"], c["lz"], c["mf"], env=dict(env, **dict(e)))
    u = mk(); table(u, c); u.run(); n = len(u.sample())-1; r = dict(u=u, n=n)
    if u.rc != 0 or n < 3: return r
    us = [len(x) > 8 for x in u.sample()]; tr = max([k for k, x in enumerate(us) if x]) if c["theta"] and not all(us) else None; r["tr"] = tr
    ks = [int(g.integers(1, n))]
    if c["theta"] and tr is not None and g.random() < .8: ks = [int(np.clip(tr+g.choice([-3, -2, -1, 0, 1, 4, 20]), 1, n-1))]
    if not c["theta"] and not c["lst"] and c["dump"] < n and g.random() < .7: ks = [c["dump"]*int(g.integers(1, (n-1)//c["dump"]+1))]
    if g.random() < .3 and ks[0] < n-1: ks.append(ks[0]+(c["dump"]*((n-1-ks[0])//c["dump"]) if not c["lst"] and not c["theta"] else int(g.integers(1, n-ks[0]))))
    ks = sorted(set(k for k in ks if k < n)); r["ks"] = ks; prev = 0
    q = mk(dict(SHIM_STOP=str(ks[0]+1), SHIM_RANK=c["stoprank"])); table(q, c); q.run(); r["q"] = q; r["stops"] = [(q.rc, os.path.exists(q.out+"/axion.restart"), len(q.sample()))]; r["lens"] = [len(q.sample())]; r["first"] = (q.files(), q.files("axion."))
    for a, b in zip(ks, ks[1:]+[None]):
        if r["stops"][-1][0] != 0 or not r["stops"][-1][1]: break
        q.env = dict(env)
        if b: q.env.update(SHIM_STOP=str(b-a+1), SHIM_RANK=c["stoprank"])
        q.args = c["args"]+["--restart"]; q.run(); r["lens"].append(len(q.sample())); r["stops"].append((q.rc, True, len(q.sample())))
    if g.random() < .25:
        s = mk(dict(SHIM_SAVE=str(ks[0]), SHIM_RANK=c["stoprank"])); table(s, c); s.run(); r["s"] = s
    return r

def judge(rep, c, r):
    u = r["u"]; kind = ("list" if c["lst"] else "every")+("/wdz" if c["wdz"] else "/fixed")+("/theta" if c["theta"] else ""); key = ("saxion" if c["field"] == SAXION else "axion")+"/"+kind
    tol = 1e-9 if c["prec"] == 8 else 1e-4
    det = "case %d stops %s of %d steps, transition %s, ranks=%d threads=%d stop seen by %s: %s%s" % (c["i"], r.get("ks"), r["n"], r.get("tr"), c["ranks"], c["threads"], c["stoprank"], " ".join(c["args"]), "\n"+c["mf"] if c["mf"] else "")
    if u.rc == "timeout": return rep.inconclusive("timeout; "+det)
    if not rep.true(u.rc == 0, key+"/run", "the uninterrupted run ended with %s: %s; %s" % (u.rc, u.log[-400:], det), u): return
    if "q" not in r: return rep.count("runs too short to stop")
    q = r["q"]; ks = r["ks"]; tr = r["tr"]; us = u.sample(); qs = q.sample()
    if any(s[0] == "timeout" for s in r["stops"]): return rep.inconclusive("timeout; "+det)
    if not rep.true(all(s[0] == 0 and s[1] for s in r["stops"]), key+"/stop", "stop and restart ended with %s: %s; %s" % (r["stops"], q.log[-600:], det), q): return
    rep.observe((key, c["prec"], c["ranks"], len(ks), tr is not None and ks[0] > tr, c["dump"] > 1), 1); rep.count("stop points", len(ks))
    # trajectory: the samples, without the one every restart prints before its first step
    seg = [qs[:r["lens"][0]]]+[qs[a+1:b] for a, b in zip(r["lens"], r["lens"][1:])]; tj = [x for s in seg for x in s]
    rep.true(r["lens"][0] == ks[0]+1, key+"/stopped-at", "%d steps done when told to stop after %d; %s" % (r["lens"][0]-1, ks[0], det), q)
    cut = lambda x: x[:3]+(x[4:8] if len(x) > 8 else x[3:5])
    after = tr is not None and any(k > tr for k in ks)
    wait = tr is not None and not after and c["args"][c["args"].index("--sst0")+1] != "0" and any(tr-1-k < 1 <= tr for k in ks)
    kk = key+("/stopped-after-transition" if after else "")
    d = next((j for j, (a, b) in enumerate(zip(us, tj)) if len(a) != len(b) or cut(a) != cut(b)), None)
    if d is not None or len(us) != len(tj):
        if c["kick"] and d is not None and d-1 in ks: return rep.true(False, "kickalpha-applied-again", det, q)
        if tr is not None and d == tr+1 and any(k < tr for k in ks):
            s0 = int(c["args"][c["args"].index("--sst0")+1]); t2 = max([k for k, x in enumerate(tj) if len(x) > 8]); kl = max(k for k in ks if k < tr or k <= t2)
            if tr < t2 <= kl+s0+1: return rep.true(False, "theta/safest-counter", det, q)
        if c["lst"] and tr is None:
            cts = [e["ct"] for e in c["ent"]]; at = lambda x: any(abs(x[0]-t) < 1.1e-6 for t in cts)
            if d is not None and d < len(tj) and d-1 in ks and at(us[d-1]) and (at(us[d]) and not at(tj[d]) or abs(tj[d][0]-tj[d-1][0]) < 1.1e-6): return rep.true(False, "list/stop-at-listed-time", det, q)
            if d is None and not c["wdz"] and len(us)-1 == c["steps"] and len(tj) > len(us): return rep.true(False, "list/step-budget", det, q)
        rep.true(False, kk+"/trajectory", "step %s of %d (resumed: %d): %s uninterrupted, %s resumed; %s" % (d, len(us)-1, len(tj)-1, us[d][:8] if d is not None else us[-1][:2], tj[d][:8] if d is not None else tj[-1][:2], det), q); return
    rep.evals += 5*len(us)
    um, qm, uc, qc = u.files(), q.files(), u.files("axion."), q.files("axion.")
    if not c["lst"] and any(k % c["dump"] for k in ks):
        # measurements every N steps: counted anew from every stop; that apart, the same run
        def plan(cuts):
            e = [(0, 0)]+[(tr, 1), (tr, 2)]*(tr is not None)+[(len(tj)-1, 4)]; b = 0
            for x in cuts+[len(tj)-1]: e += [(j+1, 3) for j in range(b, x) if (j-b) % c["dump"] == 0 and j+1 != len(tj)-1]; b = x
            return [tj[x[0]][0] for x in sorted(e)]+[c.get("wkb")]*bool(c.get("wkb"))
        tm = lambda p, ns: [h5.File(p.out+"/axion.m.%05d" % k, False).attrs["/@z"] for k in ns]; eq = lambda a, b: len(a) == len(b) and all(abs(x-y) < 2e-6 for x, y in zip(a, b))
        a, b = tm(u, um), tm(q, qm)
        if eq(a, plan([])) and eq(b, plan(ks)): rep.true(False, "every/measurement-phase", det, q); same(rep, u, q, "axion.", -1, kk, det, tol, (uc[-1], qc[-1])); return
        rep.true(eq(a, b), kk+"/times", "measured at %s uninterrupted, %s resumed; %s" % (a, b, det), q); return
    if not rep.true((um, uc) == (qm, qc), kk+"/files", "measurements %s configurations %s uninterrupted, %s %s resumed; %s" % (um, uc, qm, qc, det), q): return
    for pre, ns in (("axion.m.", um), ("axion.", uc)):
        for n in ns: same(rep, u, q, pre, n, kk, det, tol)
    if "s" in r:
        s = r["s"]
        if s.rc == "timeout": return rep.inconclusive("timeout; "+det)
        rep.true(s.rc == 0 and s.files() == um and s.files("axion.") == uc and s.sample() == us, key+"/save-request", "a run told to save its state goes on differently (%s, %s, %s); %s" % (s.rc, s.files(), s.files("axion."), det), s); rep.count("save requests")
        for pre, ns in (("axion.m.", um), ("axion.", uc)):
            for n in ns: same(rep, u, s, pre, n, key+"/save-request", det, tol)

def main(tier):
    rep = fw.Report("C15", tier, "one evaluation = one site of a configuration, one stored quantity or one sample of a resumed run compared with the uninterrupted run of the same request; distinct = (field, schedule, step mode, precision, ranks, number of stops, side of the transition)",
        ["initial conditions made repeatable by fixing the seeds; the number of the propagation step and the wall time written with a measurement are not compared", "stops requested through the file the program polls after every step"])
    from concurrent.futures import ThreadPoolExecutor
    fw.scratch(); exe = prog.main_exe("vaxion3d"); shim = build.tool("stopshim", link=("-ldl",), shared=True); n = {"quick": 40, "thorough": 600}[tier]
    cs = [case(i, tier) for i in range(n)]
    with ThreadPoolExecutor(5) as ex:
        for c, r in zip(cs, ex.map(lambda c: script(c, shim, exe), cs)):
            judge(rep, c, r)
            for k in "uqs":
                if k in r: r[k].clean()
    return rep.finish(20000)
