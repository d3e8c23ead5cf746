"""C08: background cosmology. Monitor of every value the background and the field report, against power laws, thresholds and derivatives
computed independently (closed form and finite differences of the reported values themselves), plus the quantities derived from command lines."""
import numpy as np
import ref, cases, fw, build
from ref import *

V_PQ = PQ1 | PQ2 | PQ3
NAME = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod", PAXION: "paxion"}

def rcosmo(g):
    mode = g.choice(["rad", "frw", "mink", "grav", "matter"], p=[.3, .3, .1, .2, .1])
    frw = {"rad": 1., "frw": float(np.round(g.uniform(.2, 3.), 3)), "mink": 0., "grav": 1., "matter": 2.}[mode]
    co = Cosmo(L=float(g.uniform(.5, 20)), lam=float(np.exp(g.uniform(0, 12))), lz2e=float(g.choice([0., 2., g.uniform(0, 4)])), indi3=float(g.choice([1., g.uniform(.1, 30)])),
               nqcd=float(g.choice([0., 7., g.uniform(0, 9)])), nqcdr=float(g.choice([0., 7., g.uniform(0, 9)])),
               pot=int(g.choice([QCD1, QCD0, QCDC, QCDL, QCD2])) | int(g.choice([PQ1, PQ1, PQ2, PQ3, 0])), frw=frw)
    if mode == "grav": co.grav = float(np.exp(g.uniform(-4, 2)))
    th = g.choice(["none", "sat", "restore", "off"])
    co.zth, co.zre = {"none": (1e30, 0.), "sat": (g.uniform(.3, 3), 0.), "off": (g.uniform(1, 3), g.uniform(.2, .9)), "restore": (.6, .6*g.uniform(1.01, 4))}[th]
    if th == "restore": co.zth = float(g.uniform(.3, 3)); co.zre = co.zth*float(g.uniform(1.0, 4))
    co.zth = float(co.zth); co.zre = float(co.zre)
    return co, mode, th

def times(g, co):
    z = list(np.exp(g.uniform(np.log(.05), np.log(20), 5)))
    if co.frw > 0:      # just before / after each threshold
        for t in (co.zth, co.zre):
            if 0 < t < 1e3:
                zc = 2*(np.sqrt(1+co.grav*t)-1)/co.grav if co.grav > 0 else t**(1/co.frw)
                z += [zc*(1-1e-7), zc*(1+1e-7)]
    return [float(x) for x in z]

def quad(f, a, b, brk):
    """integral of f over [a,b], with a kink at brk"""
    x, w = np.polynomial.legendre.leggauss(24); r = 0.
    pts = sorted({a, b} | ({brk} if min(a, b) < brk < max(a, b) else set()))
    for u, v in zip(pts, pts[1:]):
        n = 8
        e = np.linspace(u, v, n+1)
        for p, q in zip(e, e[1:]): r += np.dot(w, [f(t) for t in (p+q)/2+(q-p)/2*x])*(q-p)/2
    return r if b >= a else -r

def library(rep, exe, tier):
    nco = {"quick": 40, "thorough": 1500}[tier]
    todo = []
    for fi, field in enumerate([SAXION, AXION, PAXION, AXION_MOD]):
        prec = [8, 4][fi % 2]
        s = fw.Session(exe, 1, 1); cs = []

        s.cmd("new", prec, 16, 4, field, 0, 1, 0, 1.0)
        for i in range(nco):
            g = fw.rng("C08", field, i, tier); co, mode, th = rcosmo(g)
            for c in co.cmds(): s.cmd(*c)
            z = times(g, co); h = 2e-5
            c = dict(co=co, mode=mode, th=th, z=z, h=[s.cmd("bg", *[float(v) for v in (x*(1-h), x, x*(1+h))]) for x in z], field=field, hh=h)
            if co.grav == 0 and th in ("none", "sat"):
                c["im"] = [(float(a), float(b), int(n), s.cmd("imass", float(a), float(b), int(n))) for a, b, n in
                           [(g.uniform(.2, 5), g.uniform(.2, 5), g.integers(0, 5)) for _ in range(3)]]
            cs.append(c)
        todo.append((s, cs))
    fw.run_all([t[0] for t in todo])
    for s, cs in todo:
        if s.err: rep.session_error(s.err, "library", s); continue
        E = {}
        for e in [q for q in s.events if q["ev"] in ("bg", "imass")]: E.setdefault(e["ln"], []).append(e)
        for c in cs: judge(rep, s, c, E)
        s.clean()

def judge(rep, s, c, E):
    co = c["co"]; f = NAME[c["field"]]; lab = "%s %s/%s %s" % (f, c["mode"], c["th"], co)
    for z, ln in zip(c["z"], c["h"]):
        lo, e, hi = E[ln]; d = e["z"]*c["hh"]
        def eq(name, want, tol=1e-12, got=None, key=None, scale=None):
            v = e[name] if got is None else got
            rep.close(v, want, tol, "%s-%s" % (key or name, c["th"]), "%s z=%r %s" % (lab, z, name), s, scale=scale if scale is not None else max(abs(want), 1e-300))
        R = co.R(z); far = all(abs(R/t-1) > 1e-3 for t in (co.zth, co.zre) if t > 0)
        eq("R", R); eq("lam", co.lamP(z)); eq("mS2", co.mS2(z))
        eq("Rp", co.Rp(z), scale=1/z); eq("Rpp", co.Rpp(z), scale=1/z**2)
        eq("mA2", co.mA2(z), 1e-12 if far else 1e-5)
        eq("dmA2", co.nloc(z)*co.Rp(z)*co.mA2(z), 1e-9 if far else 1e-5, scale=max(co.mA2(z)/z, 1e-300))
        eq("dlog", z*co.Rp(z)*(co.nloc(z)/2+1), 1e-11, scale=1.)
        # mutual consistency of what was reported: finite differences of the reported values
        eq(None, (hi["R"]-lo["R"])/(2*d*e["R"]), 1e-7, got=e["Rp"], key="fdRp", scale=1/z)
        eq(None, (hi["R"]-2*e["R"]+lo["R"])/(d*d*e["R"]), 1e-4, got=e["Rpp"], key="fdRpp", scale=1/z**2)
        if far:
            eq(None, (hi["mA2"]-lo["mA2"])/(2*d), 1e-6, got=e["dmA2"], key="fdmA2", scale=max(co.mA2(z)/z, 1e-300))
            m = lambda q: .5*np.log(q["mA2"])+np.log(q["R"])
            if e["mA2"] > 0: eq(None, (m(hi)-m(lo))/(2*c["hh"]), 1e-6, got=e["dlog"], key="fddlog", scale=1.)
        elif co.frw > 0 and co.grav >= 0: rep.count("threshold_points")
        # the field's own view
        for a, b in (("fR", "R"), ("fRct", "R"), ("oR", "R"), ("fmA2", "mA2"), ("fmA2z", "mA2"), ("omA2", "mA2"), ("fmS2", "mS2"), ("fmS2z", "mS2"), ("omS2", "mS2"),
                     ("fRpp", "Rpp"), ("fHub2", "Rpp"), ("fHub", "Rp"), ("fLam", "lam")):
            eq(a, e[b], 1e-14, scale=max(abs(e[b]), 1e-300))
        eq("fmA", np.sqrt(e["mA2"])); eq("fmAz", np.sqrt(e["mA2"])); eq("fdzz", e["fdz"], 1e-12)
        eq("fMsa", np.sqrt(2*co.lamP(z))*R*co.L/16)
        al = co.mA2(z)/co.lamP(z)
        for k, on in (("fsshift", True), ("osshift", True), ("fshift", False), ("oshift", False)):
            if on or (co.pot & 31 == QCD1 and co.pot & V_PQ in (PQ1, PQ3)):
                r = e[k]+1      # largest root of rho^3-rho-alpha; the closed form loses precision as alpha^2 eps
                if al > 1e4: continue
                rep.true(r >= 1-1e-12 and abs(r**3-r-al) <= (1e-10+1e-14*al*al)*max(1, r**3, al), "%s-%s" % (k, c["th"]), "%s z=%r %s=%r alpha=%r" % (lab, z, k, e[k], al), s)
            elif co.pot & 31 == QCD0: eq(k, 0.)
        rep.observe((f, c["mode"], c["th"], co.pot & V_PQ, int(10*np.log10(z))), 1, sample=dict(field=f, mode=c["mode"], th=c["th"], z=z, frw=co.frw) if f == "axion" else None)
    for a, b, n, ln in c.get("im", []):
        e = E[ln][0]; co2 = co
        fm = lambda t: co2.mA2(t)*co2.R(t)**n
        zc = co.zth**(1/co.frw) if co.frw > 0 and co.zth < 1e20 else 1e9
        I = quad(fm, a, b, zc); II = quad(lambda t: fm(t)*(b-t), a, b, zc)
        # rounding: the closed form subtracts primitives at the two ends
        m = max(fm(a), fm(b)); zz = max(a, b)
        rep.close(e["I"], I, 1., "imass-%s" % c["th"], "%s int %r..%r n=%d" % (lab, a, b, n), s, scale=1e-9*abs(I)+1e-12*m*zz)
        rep.close(e["II"], II, 1., "iimass-%s" % c["th"], "%s int int %r..%r n=%d" % (lab, a, b, n), s, scale=1e-9*abs(II)+1e-12*m*zz*zz)
        rep.observe(("imass", c["mode"], c["th"], n))

POTS = [("--vqcdC", QCDC), ("--vqcdV", QCDV), ("--vqcdL", QCDL), ("--vqcd0", QCD0), ("--N2", QCD2), (None, QCD1)]
PQS = [("--vPQ1", PQ1), ("--vPQ2", PQ2), ("--vPQ3", PQ3), (None, PQ1)]

def cmdline(rep, exe, tier):
    n = {"quick": 48, "thorough": 600}[tier]; todo = []
    for i in range(n):
        g = fw.rng("C08cmd", i, tier); a = []; w = {}
        N = int(g.choice([16, 32, 64])); u = lambda lo, hi: float(np.round(g.uniform(lo, hi), 4))
        def opt(name, key, val, p=.5, dflt=None):
            if g.random() < p: a.append([name, repr(val)]); w[key] = val
            elif dflt is not None: w[key] = dflt
        opt("--lsize", "L", u(.5, 20), .8, 4.); opt("--qcd", "nqcd", u(0, 8), .5, 7.); opt("--zf", "zFinl", u(1., 9.), .7, 1.)
        opt("--wDz", "wDz", u(.1, 1.5), .4, .8)
        frw = "none"
        if g.random() < .15: a.append(["--mink"]); w["frw"] = 0.; w["mink"] = 1
        else: opt("--frw", "frw", float(g.choice([.5, 1., 2., u(.3, 2.5)])), .5, 1.); w["mink"] = 0
        q, qv = POTS[int(g.integers(len(POTS)))]; p, pv = PQS[int(g.integers(len(PQS)))]
        w["indi3"] = 1.
        if q: a.append([q])
        if q == "--vqcd0": w["indi3"] = 0.
        else: opt("--ind3", "indi3", u(.05, 9), .5, 1.)
        if p: a.append([p])
        w["pot"] = qv | pv
        dm = int(g.integers(5)); w["gamma"] = 0.; w["dectime"] = -1.
        if dm == 1: w["gamma"] = u(.1, 9); a.append(["--gam", repr(w["gamma"])]); w["pot"] |= DAMP_RHO
        if dm == 2: w["gamma"] = u(.1, 9); a.append(["--gamall", repr(w["gamma"])]); w["pot"] |= DAMP_ALL
        if dm == 3: w["dectime"] = u(.1, 9); a.append(["--dectime", repr(w["dectime"])]); w["pot"] |= DAMP_RHO
        ev = int(g.integers(5))
        if ev == 1: a.append(["--onlytheta"]); w["pot"] |= EVOL_THETA
        if ev == 2: a.append(["--onlyrho"]); w["pot"] |= EVOL_RHO
        w["zth"], w["zre"] = 1000., 1e30
        th = int(g.integers(4))
        if th >= 1: w["zth"] = u(.5, 5); a.append(["--Rc", repr(w["zth"])])
        if th == 2: w["zre"] = float(w["zth"]*g.uniform(1.1, 3)); a.append(["--RcOff", repr(w["zre"])])
        if th == 3: a.append(["--RcOff", repr(float(w["zth"]*g.uniform(.3, .9)))]); w["zth"] = w["zre"] = 1e20
        rest = [tuple(x) for x in a]; g.shuffle(rest)
        spec = str(g.choice(["llcf", "msa", "llcf+lz2e", "msa+lz2e", "none"])); st = str(g.choice(["zi", "logi", "none"]))
        x = []; w["lz2e"] = 0.; lam = None; ms = None
        if "llcf" in spec: lam = float(np.round(np.exp(g.uniform(1, 11)), 2)); x += ["--llcf", repr(lam)]
        if "msa" in spec: ms = u(.3, 2.5); x += ["--msa", repr(ms)]; w["lz2e"] = 2.
        if "lz2e" in spec: w["lz2e"] = float(g.choice([0., 1., 2., 3., u(0, 5)])); x += ["--lz2e", repr(w["lz2e"])]
        if spec == "none": lam = 25000.
        zi = logi = None
        if st == "zi": zi = u(.05, 2); x += ["--zi", repr(zi)]
        if st == "logi":
            logi = u(.5, 5); x += ["--logi", repr(logi)]
        if abs(2+w["frw"]*(2-w["lz2e"])) < .05 and logi is not None: continue      # log does not fix the time
        args = [y for r in rest for y in r] + x
        s = fw.Session(exe, 1, 1, args=args, N=N); h = s.cmd("params"); hb = s.cmd("bg", 1.0, w["zFinl"])
        todo.append((s, h, hb, w, dict(spec=spec, st=st, lam=lam, ms=ms, zi=zi, logi=logi, N=N, args=args)))
    fw.run_all([t[0] for t in todo], 6)
    for s, h, hb, w, c in todo:
        lab = " ".join(c["args"])
        if s.err: rep.session_error(s.err, "cmdline", s); continue
        e = s.at(h)
        for k, v in w.items():
            rep.close(float(e[k]), v, 1e-12, "cmd-" + k, lab, s, scale=max(abs(v), 1e-300))
        lam, lz, zi, N, L, frw = e["lambda"], e["lz2e"], e["zi"], c["N"], e["L"], w["frw"]
        rep.close(e["zInit"], zi, 1e-15, "cmd-zInit", lab, s)
        if c["lam"] is not None: rep.close(lam, c["lam"], 1e-12, "cmd-lambda", lab, s)
        at = lambda z: np.sqrt(2*lam)*L/N*z**(frw*(1-lz/2))
        lg = .5*np.log(2*lam*zi**(2+2*frw-frw*lz))
        if c["ms"] is not None:
            rep.close(at(w["zFinl"] if lz <= 2 else zi), c["ms"], 1e-9, "cmd-msa", lab, s)
            rep.close(e["msa"], c["ms"], 1e-12, "cmd-msav", lab, s)
        else: rep.close(e["msa"], at(zi), 1e-9, "cmd-msav", lab, s)
        if c["zi"] is not None: rep.close(zi, c["zi"], 1e-12, "cmd-zi", lab, s)
        elif c["logi"] is None: rep.close(zi, .5, 1e-12, "cmd-zi", lab, s)
        if c["logi"] is not None: rep.close(lg, c["logi"], 1e-9, "cmd-logi", lab, s, scale=1.)
        if c["ms"] is not None: rep.close(e["logi"], lg, 1e-9, "cmd-logi", lab, s, scale=1.)
        rep.observe(("cmd", c["spec"], c["st"], frw, lz, w["pot"])); s.clean()

def tabulated(rep, exe, tier):
    """the tabulated QCD cosmology: normalised at t1 and internally consistent"""
    tab = np.array([[float(x) for x in l.split()] for l in open(build.REPO + "/include/cosmos/jaxi-cosmo.txt").read().split("\n")[2:] if l.strip()])
    n = {"quick": 4, "thorough": 30}[tier]; todo = []
    for i in range(n):
        g = fw.rng("C08tab", i, tier); fA = float(10**g.uniform(9.5, 12.5))
        s = fw.Session(exe, 1, 1, args=["--qcd", "qcd", "--fA", repr(fA)], env={"JAXIONS_DIR": build.REPO})
        s.cmd("new", 8, 16, 4, AXION, 0, 1, 0, 1.0); hh = 1e-4
        z = [1.] + [float(x) for x in np.exp(g.uniform(np.log(.3), np.log(8), 6))]
        hs = [s.cmd("bg", *[float(v) for v in (x*(1-hh), x, x*(1+hh))]) for x in z]
        todo.append((s, z, hs, hh, fA))
    fw.run_all([t[0] for t in todo])
    for s, z, hs, hh, fA in todo:
        if s.err: rep.session_error(s.err, "tabulated", s); continue
        E = {}
        for e in [q for q in s.events if q["ev"] in ("bg", "imass")]: E.setdefault(e["ln"], []).append(e)
        for x, ln in zip(z, hs):
            lo, e, hi = E[ln]; lab = "fA=%r z=%r" % (fA, x); d = x*hh
            if x == 1.: rep.close(e["R"], 1., 1e-9, "tab-R1", lab, s); rep.close(e["mA2"], 1., 1e-9, "tab-chi1", lab, s)
            # the table itself, in units of eta1 where it lists log10 fA, piecewise log-linear between its rows
            le, l1 = np.log(tab[:, 0]), np.interp(np.log10(fA), tab[:, 5], np.log(tab[:, 0]))
            f = lambda col: np.interp(l1+np.log(x), le, col)-np.interp(l1, le, col)
            rep.close(np.log(e["R"]), f(np.log(tab[:, 1])), 5e-3, "tab-R", lab, s, scale=1.)
            rep.close(np.log(e["mA2"]), f(np.log(tab[:, 4])), 8e-2, "tab-chi", lab, s, scale=1.)
            rep.close(e["Rpp"]*x*x, np.interp(l1+np.log(x), le, tab[:, 3]), 2e-2, "tab-Rpp", lab, s, scale=1.)
            rep.close((hi["R"]-lo["R"])/(2*d*e["R"]), e["Rp"], 1e-3, "tab-Rp", lab, s)
            rep.close((hi["mA2"]-lo["mA2"])/(2*d), e["dmA2"], 1e-3, "tab-dmA2", lab, s, scale=max(abs(e["dmA2"]), e["mA2"]/x))
            rep.close((.5*np.log(hi["mA2"]/lo["mA2"])+np.log(hi["R"]/lo["R"]))/(2*hh), e["dlog"], 1e-3, "tab-dlog", lab, s, scale=1.)
            rep.true(np.isfinite(list(e[k] for k in ("R", "Rp", "Rpp", "mA2", "dmA2", "dlog"))).all() and e["R"] > 0 and e["mA2"] >= 0 and .5 < e["R"]/x < 1.5, "tab-sane", lab+str(e), s)
            rep.observe(("tab", int(np.log10(fA)*2), int(5*np.log(x))))
        s.clean()

def main(tier):
    rep = fw.Report("C08", tier, "one evaluation = one (cosmology, time) at which every reported background quantity was compared with its closed form, with finite differences of the reported values and with the field's own view; or one command line whose derived parameters were checked; distinct = (field, law, threshold regime, potential, time bin)",
                    ["PQ2 saxion shift (a numerical fit) and the QCD2 shift (documented as not computed) are not compared", "time integrals of the mass are checked without a restoring threshold, as they document"])
    exe = build.build()["drv"]
    library(rep, exe, tier); cmdline(rep, exe, tier); tabulated(rep, exe, tier)
    return rep.finish(300)
