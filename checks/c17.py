"""C17: initial conditions; runtime monitor: the field written by the real generators from the command line against analytic profiles site by site, or against the requested distribution/spectrum (Kolmogorov-Smirnov, per-mode amplitudes, stream overlap), plus normalisation, core profile and velocity relations."""
import math, os
import numpy as np
import ref, cases, fw, build
from ref import *

DET = ["mc", "mc0", "ax1mode", "parres", "stXY", "stYZ", "axiton"]
KIND = ["det"]*7+["rand", "axnoise", "saxnoise", "kmax", "lola", "spax", "spaxrand", "spaxsax", "tkachev", "thermal", "cole"]

def scale(co, z):
    if co["mink"]: return 1., 0.
    if co["grav"] > 0 and co["frw"] == 1: return z*(1+.25*co["grav"]*z), 1+.5*co["grav"]*z
    return z**co["frw"], co["frw"]*z**(co["frw"]-1)

def gen(i, tier):
    g = fw.rng("C17", i, tier); prec = [8, 4][i % 2]; kind = KIND[(i//2) % len(KIND)]; c = dict(g=g, prec=prec, kind=kind)
    fft = kind not in ("det", "rand", "axnoise", "saxnoise")
    ranks = int(g.choice([1, 2, 4])); N = int(g.choice([16, 24, 32])) if not fft else int(g.choice([16, 32]) if kind in ("kmax", "lola") else g.choice([16, 24, 32]))
    lz = N//ranks if fft or g.random() < .5 else int(g.integers(4, 12))
    c.update(ranks=ranks, N=N, lz=lz, shape=(lz*ranks, N, N), threads=int(g.choice([1, 2, 3, 5])), L=float(np.exp(g.uniform(0, 2))), z=float(np.exp(g.uniform(-1, 1))),
             frw=1. if kind in ("tkachev", "spax", "spaxrand") or fft else float(g.choice([1., 1., .5, 2.])), grav=0., LL=float(np.exp(g.uniform(2, 9))), alpha=float(g.choice([.143, .7, .5])), siter=0, nncore=bool(g.random() < .5), kick=float(g.choice([0., 0., -.3, .8])), mink=bool(kind in ("det", "rand") and g.random() < .2), extrav=0., kcr=1., mode0=0., kmax=2)
    a = []
    if kind == "det":
        c["var"] = v = DET[(i//2) % len(KIND)]; c["siter"] = int(g.choice([0, 0, 1, 4])); c["mode0"] = float(g.uniform(.3, 2.9)); c["kcr"] = float(g.uniform(.2, 2)); c["kmax"] = int(g.integers(1, 5))
        if v in ("stXY", "stYZ"): c["mode0"] = float(g.choice([0., g.uniform(.1, .4)])); c["kcr"] = float(g.uniform(-.4, .4)*lz*ranks) if v == "stXY" else 1.; c["siter"] = int(g.choice([0, 0, 1]))
        if v == "parres" and g.random() < .5: c["kkk"] = [int(x) for x in g.integers(0, 4, 3)]
        if v == "stXY": c["kcr"] = round(abs(c["kcr"]), 2)+.3
    if kind == "rand": c["siter"] = int(g.choice([0, 0, 3]))
    if kind == "axnoise": c["kcr"] = float(g.uniform(.1, 1.)); c["mode0"] = float(g.uniform(-2, 2))
    if kind == "saxnoise": c["kcr"] = float(g.uniform(.1, .8)); c["mode0"] = float(g.uniform(-3, 3)); c["nncore"] = True; c["siter"] = int(g.choice([0, 2])); c["alpha"] = .7
    if kind == "kmax": c["kmax"] = N//2; c["kcr"] = float(g.uniform(2., 5.)*N/16)
    if kind == "lola": c["kmax"] = 1; c["siter"] = int(g.choice([0, 1])); c["kcr"] = float(g.uniform(.7, 1.5)); c["z"] = float(c["L"]*g.uniform(.08, .2)); c["logi"] = float(g.uniform(2., 5.))
    if kind[:4] == "spax":
        nk = int(np.sqrt(3)*N/2)+3; k = np.arange(nk); c["tab"] = np.array([.03*np.exp(-k/g.uniform(2, 9))*(1+.5*np.cos(k)), .1*(1+k)**-g.uniform(.2, 2.)]).T*(.2 if kind == "spaxsax" else 1)
    if kind == "spaxsax": c["kmax"] = 1; c["logi"] = float(g.uniform(2., 4.)); c["z"] = float(c["L"]*g.uniform(.08, .2)); c["siter"] = 0
    if kind == "tkachev": c["kcr"] = float(np.exp(g.uniform(-9, -6))); c["kmax"] = int(g.integers(3, N//2+2))
    if kind == "thermal": c["kcr"] = float(np.exp(g.uniform(-1, 2)))
    if kind == "cole": c["kcr"] = float(np.exp(g.uniform(-1, 1.5)))*c["L"]/(2*np.pi*c["z"])/3; c["extrav"] = float(g.choice([0., .7]))
    return c

CT = dict(det="smooth", rand="smooth", axnoise="smooth", saxnoise="smooth", spaxrand="spax", spaxsax="spax")
def args(c):
    k = c["kind"]; a = ["--ctype", CT.get(k, k), "--lsize", repr(c["L"]), "--frw", repr(c["frw"]), "--llcf", repr(c["LL"]), "--kcr", repr(c["kcr"]), "--mode0", repr(c["mode0"]), "--kmax", c["kmax"], "--sIter", c["siter"], "--alpha", repr(c["alpha"]), "--kickalpha", repr(c["kick"]), "--extrav", repr(c["extrav"]), "--lap", 1]
    a += ["--zi", repr(c["z"])] if "logi" not in c else ["--zi", repr(c["z"])]
    if c["nncore"]: a.append("--nncore")
    if c["mink"]: a.append("--mink")
    if k == "det": a += ["--smvar", c["var"]]
    if k in ("axnoise", "saxnoise"): a += ["--smvar", k]
    if k == "spax": a.append("--norandommom")
    a += ["--ftype", "axion" if k in ("spax", "spaxrand") else "saxion"]
    return [str(x) for x in a]

def normcore(m, R, LP, delta):
    """string-core profile fitted to the local gradient of the phase"""
    gt = 0
    for ax in range(3):
        gt = gt+((np.roll(m, -1, ax)-m)/m).imag**2+((m-np.roll(m, 1, ax))/m).imag**2
    s = 2*np.sqrt(LP)*R*delta/np.sqrt(np.maximum(gt, 1e-30))
    rho = (.43*s+.164*s**2+.036*s**4)/(1+.39*s+.2*s**2+.036*s**4)
    return m/np.abs(m)*np.where(gt > 1e-7, rho, 1.), gt

def profile(c):
    N, L = c["N"], c["L"]; Tz = c["shape"][0]; z, y, x = np.meshgrid(*[np.arange(s, dtype=float) for s in c["shape"]], indexing="ij"); v = c["var"]
    zw = np.where(z > Tz//2, z-Tz, z); xw = np.where(x > N//2, x-N, x); yw = np.where(y > N//2, y-N, y); h = N//2
    kc2 = L*L/(2*N*N*c["kcr"]**2); m0 = c["mode0"]; rho = 1.
    sr = m0 if m0 > 0 else .2501; a = sr*N
    def loop(r, d):
        d1, d2 = (r+a)**2+d*d, (r-a)**2+d*d; c["ring"] = d2 < .05
        return np.pi*(.5+(4*a*a-d1-d2)/(4*np.sqrt(d1*d2)))
    if v == "mc": th = m0*np.exp(-kc2*((x-h)**2+(y-h)**2+zw**2))
    if v == "mc0": th = m0*np.exp(-kc2*(xw**2+yw**2+zw**2))
    if v == "axiton": th = m0/(1+kc2*(xw**2+yw**2+zw**2))
    if v == "ax1mode": th = m0*np.cos(2*np.pi*(x*c["kmax"]+y)/N)
    if v == "parres": k = c.get("kkk", [c["kmax"], 0, 0]); th = m0*np.cos(2*np.pi*(x*k[0]+y*k[1]+z*k[2])/N); rho = c["kcr"]
    if v == "stXY":
        d = z-c["kcr"]; d = np.where(d > Tz/2, d-Tz, d); d = np.where(-d > Tz/2, d+Tz, d)
        th = loop(np.hypot(x-h, y-h), d)*np.sign(d-.01)
    if v == "stYZ": th = loop(np.hypot(zw, y-h), x-h)*np.where(x > h, -1, 1)
    return rho*np.exp(1j*th)

def ks(u):
    """sqrt(n) times the largest distance between the empirical distribution of u and the uniform one on [0,1]"""
    u = np.sort(u); n = len(u); k = np.arange(n)
    return np.sqrt(n)*max((u-k/n).max(), ((k+1)/n-u).max())

erf = np.vectorize(math.erf)
def kspace(c):
    N = c["N"]; k = np.fft.fftfreq(N, 1/N); kz, ky, kx = np.meshgrid(k, k, k, indexing="ij"); return kx, ky, kz, kx**2+ky**2+kz**2

def repeats(a):
    """number of sites whose value and the two following ones occur elsewhere too"""
    w = np.stack([a[:-2], a[1:-1], a[2:]], 1); w = np.ascontiguousarray(w).view(np.void(w.dtype.itemsize*3).dtype if 0 else [("", w.dtype)]*3).ravel()
    return len(w)-len(np.unique(w))

def overlap(ph):
    """largest autocorrelation, in standard deviations, of a sequence of phases in the order they were drawn"""
    n = len(ph); f = np.fft.fft(np.exp(1j*ph), 2*n); ac = np.abs(np.fft.ifft(np.abs(f)**2))[1:n]
    return (ac/np.sqrt(np.maximum(np.arange(n-1, 0, -1), 1)))[:n-40].max()

_ens = {}
def correl(m):
    n = m/np.abs(m); return np.array([(n*np.conj(np.roll(n, -d, a))).real.mean() for d in (1, 2, 3) for a in range(3)])
def ensemble(N, S2, key):
    if key not in _ens:
        r = np.random.default_rng(7); o = []
        for _ in range(60 if N <= 16 else 36):
            cc = S2*r.normal(size=S2.shape)*np.exp(2j*np.pi*r.random(S2.shape)); o.append(correl(np.fft.ifftn(cc)))
        o = np.array(o); _ens[key] = (o.mean(0), o.std(0))
    return _ens[key]

def main(tier):
    rep = fw.Report("C17", tier, "one evaluation = one generated initial condition, every site or mode compared; distinct = (generator, profile, precision, ranks, threads, shape, expansion law, smoothing, core profile)", ["statistical thresholds beyond eight standard deviations", "numpy FFT and profiles in double precision as reference"])
    exe = build.build()["drv"]; todo = []
    for i in range({"quick": 4*len(KIND), "thorough": 60*len(KIND)}[tier]):
        c = gen(i, tier); s = fw.Session(exe, c["ranks"], c["threads"], args=args(c), N=c["N"], Lz=c["lz"], prec="double" if c["prec"] == 8 else "single")
        if "kkk" in c: open(s.dir+"/kkk.dat", "w").write(" ".join(map(str, c["kkk"]))+"\n")
        if "tab" in c: open(s.dir+"/initialspectrum.dat", "w").write("\n".join("%.17g %.17g" % tuple(r) for r in c["tab"]))
        s.cmd("gen"); ax = c["kind"] in ("spax", "spaxrand"); dt = cases.dtypes(c["prec"], AXION if ax else SAXION); c["dt"] = dt
        s.cmd("params"); c["h"] = (s.dump("m", dt, c["shape"]), s.dump("v", dt, c["shape"])); todo.append((s, c))
    fw.run_all([t[0] for t in todo], 6)
    for s, c in todo:
        g, kind = c["g"], c["kind"]; pr = "double" if c["prec"] == 8 else "single"; nm = c.get("var", kind); key = "%s-%s" % (nm, pr)
        lab = "%s ranks %d threads %d shape %s z %.4g frw %g kcr %.4g mode0 %.4g kmax %d siter %d alpha %g nncore %d kick %g mink %d" % (key, c["ranks"], c["threads"], c["shape"], c["z"], c["frw"], c["kcr"], c["mode0"], c["kmax"], c["siter"], c["alpha"], c["nncore"], c["kick"], c["mink"])
        if s.err: rep.session_error(s.err, key, s); continue
        R, dR = scale(c, c["z"]); N, L, V = c["N"], c["L"], np.prod(c["shape"]); delta = L/N; eps = 6e-8 if c["prec"] == 4 else 2e-16
        Rm = R; LP = c["LL"]
        m, v = s.get(c["h"][0]), s.get(c["h"][1]); raw = m.ravel().copy()
        m = m.astype(complex if np.iscomplexobj(m) else float); v = v.astype(m.dtype)
        if not (np.isfinite(m).all() and np.isfinite(v).all()): rep.violation(key+"-finite", "non-finite initial field: "+lab, s); continue
        u = m/Rm
        def velocity(kick, d, tol=60):
            """the generated field moves with the expansion only"""
            if c["mink"]: rep.true(np.all(v == 0), key+"-velocity", "non-zero velocity in Minkowski: "+lab, s)
            else: rep.close(v, d*u*(1+kick), tol*eps, key+"-velocity", lab, s, scale=max(1, d))
        def cores(tol=1):
            """modulus: vacuum, or the profile of the local phase gradient"""
            if c["nncore"]: rep.close(np.abs(u), np.ones(c["shape"]), 30*eps, key+"-vacuum", lab, s, scale=1.); return
            e, gt = normcore(u/np.abs(u), R, LP, delta); ok = np.abs(gt-1e-7) > 1e-8 if c["prec"] == 8 else gt > 1e-4
            er = np.where(ok, np.abs(np.abs(u)-np.abs(e)), 0); rep.close(er, 0*er, 2e-4 if c["prec"] == 4 else 1e-9, key+"-core", lab, s, scale=1.); rep.count("core_sites_below_half", int((np.abs(u) < .5).sum()))
        if kind == "det":
            e = profile(c); ring = c.get("ring", np.zeros(c["shape"], bool))
            for _ in range(c["siter"]): e = c["alpha"]*e+(1-c["alpha"])/6*sum(np.roll(e, d, ax) for ax in range(3) for d in (1, -1))
            small = (np.abs(e) < .05*(c["kcr"] if c["var"] == "parres" else 1)) | ring
            for _ in range(c["siter"]):
                for ax in range(3): small = small | np.roll(small, 1, ax) | np.roll(small, -1, ax)
            if c["var"] != "parres": e = np.where(small, 1, e/np.maximum(np.abs(e), 1e-30))
            tol = 3e-7 if c["prec"] == 8 else 1e-4
            if not c["nncore"]:
                near = small
                if small.any():
                    for ax in range(3): small = small | np.roll(small, 1, ax) | np.roll(small, -1, ax)
                e, gt = normcore(e, R, LP, delta); small = small | ((gt < 1e-4) if c["prec"] == 4 else (np.abs(gt-1e-7) < 1e-8)); tol *= 10
                if c["prec"] == 4: rep.close(np.where(small & ~near, np.abs(np.angle(u*np.conj(e))), 0), 0*gt, 1e-3, key+"-phase", lab, s, scale=1.)
                if small.all(): rep.count("profiles_with_phase_only")
            rep.count("sites_skipped_near_zero_modulus", int(small.sum()))
            rep.close(np.where(small, 0, u), np.where(small, 0, e), tol, key+"-profile", lab, s, scale=max(1, c["kcr"] if c["var"] == "parres" else 1))
            velocity(c["kick"], dR, 60 if c["nncore"] else 400)
        elif kind in ("rand", "axnoise"):
            cores(); velocity(c["kick"], dR, 60 if c["nncore"] else 400); a = np.angle(u).ravel(); pure = c["siter"] == 0
            if pure: rep.true(repeats(raw.view(raw.real.dtype).reshape(-1, 2)[:, 0]) == 0, key+"-streams", "the same random numbers appear at different sites: "+lab, s)
            if pure and kind == "rand":
                o = np.floor(a/(np.pi/4)); f = np.abs(a-np.pi/2*np.round(a/(np.pi/2))); d = [ks(np.tan(f)), ks((o+4+np.minimum(.999, a*4/np.pi-o))/8 if 0 else (o+4+g.random(len(a)))/8)]
                rep.true(max(d) < 4.5, key+"-distribution", "phases not those of a uniform square: KS %s: %s" % (d, lab), s)
            if kind == "axnoise":
                d = np.angle(np.exp(1j*(a-c["mode0"])))/c["kcr"]; rep.true(np.abs(d).max() <= 1+1e-4 and ks((d+1)/2) < 4.5, key+"-distribution", "angles not uniform within kcr of mode0: max %g KS %g: %s" % (np.abs(d).max(), ks((d+1)/2), lab), s)
        elif kind == "saxnoise":
            d = u*np.exp(-1j*c["mode0"]); rep.close(d.imag, 0*d.imag, 200*eps, key+"-angle", lab, s, scale=1.); velocity(c["kick"], dR)
            F = np.fft.fftn(d.real); k = [np.cos(2*np.pi*np.fft.fftfreq(n)) for n in c["shape"]]; T = c["alpha"]+(1-c["alpha"])/3*(k[0][:, None, None]+k[1][None, :, None]+k[2][None, None, :])
            w = (np.fft.ifftn(F/T**c["siter"]).real.ravel()-1)/c["kcr"]; q = ks((w+1)/2)
            rep.true(np.abs(w).max() <= 1+1e-3 and q < 4.5, key+"-distribution", "moduli not uniform within kcr of one (smoothing undone): max %g KS %g: %s" % (np.abs(w).max(), q, lab), s)
            if c["siter"] == 0: rep.true(repeats(raw.view(raw.real.dtype).reshape(-1, 2)[:, 0]) == 0, key+"-streams", "the same random numbers appear at different sites: "+lab, s)
        elif kind in ("kmax", "lola"):
            cores(); kx, ky, kz, k2 = kspace(c)
            velocity(c["kick"] if kind == "lola" else 0, 1., 60)
            if kind == "kmax": kc = c["kcr"]; km = min(c["kmax"], N//2-1)
            else:
                e = s.ev("params")[0]; lg = c["logi"] if "logi" in c and False else e.get("logi", None); kc = None
            if kc:
                S = np.where(k2 <= 3*km*km, np.exp(-k2/kc**2), 0); mu, sd = ensemble(N, S, (N, round(kc, 6), km)); zz = np.abs(correl(u)-mu)/(sd*np.sqrt(1.1)+1e-4)
                rep.true(zz.max() < 9, key+"-correlation", "neighbour correlations %s differ from those of the requested spectrum %s +- %s: %s" % (correl(u)[:3], mu[:3], sd[:3], lab), s)
        elif kind in ("spax", "spaxrand"):
            kx, ky, kz, k2 = kspace(c); km = N//2-1; sel = (kx > 0) & (kx < N//2) & (k2 <= 3*km*km); kk = np.sqrt(k2)
            for f, col, w in ((m, 0, "field"), (v, 1, "velocity")):
                ck = np.fft.fftn(f)/V; t = np.interp(kk, np.arange(len(c["tab"])), c["tab"][:, col]); nz = np.abs(ck[sel]).max()*eps*40
                if kind == "spax": rep.close(np.abs(ck[sel]), t[sel], 50*eps, key+"-"+w, lab, s, scale=t.max())
                else:
                    q = sel & (t > 200*nz); al = np.abs(ck[q])/t[q]; d = ks(erf(al/np.sqrt(2))); rep.true(d < 4.5, key+"-"+w, "mode amplitudes not normal with the table's width: KS %g: %s" % (d, lab), s); rep.count("modes_judged", int(q.sum()))
                o = np.angle(ck.transpose(1, 0, 2)[sel.transpose(1, 0, 2)]); d = (ks((o+np.pi)/(2*np.pi)), overlap(o)); rep.true(d[0] < 4.5 and d[1] < 8, key+"-"+w+"-phases", "phases not independent and uniform: KS %g overlap %g sigma: %s" % (d+(lab,)), s)
                out = (k2 > 3*km*km) & (kx != 0); rep.close(np.abs(ck[out]), 0*k2[out], 50*eps, key+"-"+w+"-cut", lab, s, scale=t.max())
        elif kind == "spaxsax":
            kx, ky, kz, k2 = kspace(c); km = N//2-1; sel = (kx > 0) & (kx < N//2) & (k2 <= 3*km*km); kk = np.sqrt(k2); vm = (v/m) if c["nncore"] else None
            cores()
            if vm is not None:
                rep.close(vm.real, np.full(c["shape"], dR/R), 100*eps, key+"-modulus-velocity", lab, s, scale=np.abs(vm).max())
                # v/m = R'/R + i theta', theta' = psi'/R - theta R'/R; psi and psi' have the tables' spectra
                ck = np.fft.fftn(vm.imag)/V; t0, t1 = (np.interp(kk, np.arange(len(c["tab"])), c["tab"][:, j])/R for j in (0, 1)); sg = np.sqrt((t1**2+(t0*dR/R)**2)/2); x = np.abs(ck[sel])**2/(2*sg[sel]**2)
                sh = np.floor(kk[sel]/3).astype(int)
                for b in range(sh.max()+1):
                    n = (sh == b).sum()
                    if n >= 20: zz = (x[sh == b].mean()-1)/np.sqrt(2./n); rep.true(abs(zz) < 9, key+"-spectrum", "power of the angular velocity in shell %d is %g of the requested one (%d modes): %s" % (b, x[sh == b].mean(), n, lab), s)
        elif kind == "tkachev":
            kx, ky, kz, k2 = kspace(c); th = np.angle(m); tp = (v/m).imag; rep.close(np.abs(m), np.full(c["shape"], R), 30*eps, key+"-vacuum", lab, s, scale=R); rep.close((v/m).real, np.full(c["shape"], dR/R), 100*eps, key+"-modulus-velocity", lab, s, scale=np.abs(v/m).max())
            rep.close(np.array([np.mean(th**2)]), np.array([c["kcr"]*np.pi**2/3]), 1e-3 if c["prec"] == 4 else 1e-9, key+"-variance", lab, s)
            kc = L/(2*np.pi*c["z"]); x = np.sqrt(k2)/kc; sc = np.where(k2 == 0, 1, np.sin(x)/np.where(x == 0, 1, x)); km = min(c["kmax"], N//2-1); sel = (k2 <= 3*km*km) & (np.abs(kx) < N//2) & (np.abs(ky) < N//2) & (np.abs(kz) < N//2)
            a, b = np.fft.fftn(th)/V, np.fft.fftn(tp)/V; rep.close(np.abs(a[k2 > 3*km*km]), 0*k2[k2 > 3*km*km], 1e3*eps*np.pi, key+"-cut", lab, s, scale=1.)
            rep.close(b[sel]*sc[sel]*c["z"], a[sel]*np.where(k2 == 0, 0, np.cos(x)-sc)[sel], 1e-9 if c["prec"] == 8 else 3e-4, key+"-velocity", lab, s, scale=np.abs(a).max())
            q = sel & (np.abs(sc) > .02) & (k2 > 0); p = np.abs(a[q])**2/sc[q]**2; p /= p.mean(); sh = np.floor(np.sqrt(k2[q])/3).astype(int)
            for j in range(sh.max()+1):
                n = (sh == j).sum()
                if n >= 30: zz = (p[sh == j].mean()-1)/(1.23*np.sqrt(2./n)); rep.true(abs(zz) < 9, key+"-spectrum", "shell %d has %g of the power of a sin(x)/x spectrum (%d modes): %s" % (j, p[sh == j].mean(), n, lab), s)
        elif kind == "thermal":
            kx, ky, kz, k2 = kspace(c); km = N//2-1; T2 = c["kcr"]**2; mS = LP*(R*R*(T2/3-1) if T2 > 3 else 2*R*R*(1-T2/3)); w = np.sqrt(k2*(2*np.pi/L)**2+mS); n = 1/np.expm1(np.minimum(600, w/c["kcr"])); sel = (k2 <= 3*km*km) & (k2 > 0)
            for f, S, nm2 in ((m, np.sqrt(n/w), "field"), (v, np.sqrt(n*w), "velocity")):
                ck = np.fft.fftn(f)/V*L**1.5; q = sel & (S > 1e-4*np.abs(ck).max() if c["prec"] == 4 else sel & (S > 1e-9*np.abs(ck).max())); al = np.abs(ck[q])/S[q]
                if q.sum() < 200: rep.count("thermal_field_too_cold"); continue
                d = ks(erf(al/np.sqrt(2))); rep.true(d < 4.5, key+"-"+nm2, "mode amplitudes not those of the thermal occupation: KS %g, rms ratio %g: %s" % (d, np.sqrt((al**2).mean()), lab), s); rep.count("modes_judged", int(q.sum()))
                o = np.angle(ck.transpose(1, 0, 2)[q.transpose(1, 0, 2)]); d = (ks((o+np.pi)/(2*np.pi)), overlap(o)); rep.true(d[0] < 4.5 and d[1] < 8, key+"-"+nm2+"-phases", "phases not independent and uniform: KS %g overlap %g sigma: %s" % (d+(lab,)), s)
        elif kind == "cole":
            kx, ky, kz, k2 = kspace(c); km = N//2-1; kc = L/(2*np.pi*c["z"]*c["kcr"]); mP = k2/kc**2
            S = np.where(k2 <= 3*km*km, np.exp(-4*kc*kc/N**2*mP)/(1+mP)**1.5, 0)
            parts = []
            if c["nncore"]:
                rep.close(np.array([np.abs(u).mean()]), np.array([1.]), 1e-4 if c["prec"] == 4 else 1e-10, key+"-mean", lab, s); parts.append((u, S, "field"))
            dv = v-u*(1+c["kick"])
            if c["extrav"]:
                rep.close(np.array([np.abs(dv).mean()]), np.array([c["extrav"]]), 1e-4 if c["prec"] == 4 else 1e-10, key+"-extravelocity", lab, s); parts.append((dv, np.where(k2 <= 3*km*km, np.exp(-mP), 0), "extra"))
            else: rep.close(dv, 0*dv, 100*eps, key+"-velocity", lab, s, scale=np.abs(u).max())
            for f, S, nm2 in parts:
                ck = np.fft.fftn(f)/V; q = S > (1e-3 if c["prec"] == 4 else 1e-6); al = np.abs(ck[q])/S[q]; al = al/np.sqrt((al**2).mean())
                if q.sum() < 100: rep.count("cole_spectrum_too_narrow"); continue
                d = ks(erf(al/np.sqrt(2))); o = np.angle(ck.transpose(1, 0, 2)[q.transpose(1, 0, 2)]); d2 = (ks((o+np.pi)/(2*np.pi)), overlap(o)); rep.count("modes_judged", int(q.sum()))
                rep.true(d < 4.5 and d2[0] < 4.5 and d2[1] < 8, key+"-"+nm2+"-spectrum", "mode amplitudes/phases do not follow the spectrum: KS %g, phases KS %g overlap %g: %s" % (d, d2[0], d2[1], lab), s)
        rep.observe((nm, pr, c["ranks"], c["threads"], c["shape"], c["frw"], c["siter"] > 0, c["nncore"]), 1, sample=lab); rep.count("sites_generated", int(V))
        s.clean()
    return rep.finish({"quick": 60, "thorough": 600}[tier])
