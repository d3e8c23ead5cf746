"""C12: power spectra against a mode-by-mode recount on an independent FFT."""
import numpy as np
import cases, fw, build
from ref import *
from c02 import cosmo

NK, NG, NV, NS, NCK, NCG, NCV, NCS = 1, 2, 4, 8, 16, 32, 64, 128
FLAT, VIL, VIL2, REDO, BALL, AXIT2 = 1, 2, 4, 8, 64, 1024
SIGMALUT = None

def ints(shape):
    tz, N, _ = shape
    f = lambda n: np.rint(np.fft.fftfreq(n)*n)
    kz, ky, kx = f(tz)[:, None, None], f(N)[None, :, None], f(N)[None, None, :]
    return kz, ky, kx, kz*kz+ky*ky+kx*kx

class Acc:
    """the oracle: every mode of the full (not half) complex transform once"""
    def __init__(s, shape, nbs, L):
        s.shape = shape; s.kz, s.ky, s.kx, s.k2 = ints(shape); s.L = L
        pm = int(np.floor(np.sqrt(2.*(shape[1]//2)**2+(shape[0]//2)**2)))+1
        s.nb = pm if nbs < 0 else nbs; mul = 1. if nbs < 0 else nbs/float(pm)
        t = mul*np.sqrt(s.k2); s.bin = np.floor(t).astype(int); s.amb = np.abs(t-np.rint(t)) < 1e-9*np.maximum(1, t); s.exact = nbs < 0
        s.norm = L**3/(2.*float(np.prod(shape))**2); s.out = {}
    def add(s, nm, f, eps, w=1., err=0.):
        """err: rms absolute rounding error per site of the real-space map beyond eps*max|f|"""
        F = np.fft.fftn(f.astype(np.float64)); P = np.abs(F)**2; w = np.broadcast_to(np.asarray(w, float), P.shape)
        E = np.full(P.shape, (eps*4)**2*P.mean()+(eps*4*np.max(np.abs(f)))**2*P.size+8*err**2*P.size); E.flat[0] += (err*P.size)**2
        b = lambda x: np.bincount(s.bin.ravel(), np.broadcast_to(x*w, P.shape).ravel(), minlength=s.nb+2)*s.norm
        a, t = b(P), 2*b(np.sqrt(P*E))+b(E)
        if nm in s.out: s.out[nm] = (s.out[nm][0]+a, s.out[nm][1]+t)
        else: s.out[nm] = (a, t)
    def check(s, rep, e, key, det, sess, rel, extra=()):
        for nm in ("K", "G", "V", "VNL", "P", "NN", "AK"):
            if nm not in s.out and nm not in extra: continue
            got = np.asarray(e[nm]); want, tol = s.out.get(nm, (np.zeros(s.nb+2), np.zeros(s.nb+2)))
            if want[s.nb:].any(): raise RuntimeError("oracle bins overflow")
            want, tol = want[:s.nb], tol[:s.nb]
            if len(got) != s.nb: rep.true(False, key+"/bins", "%d bins, expected %d; %s" % (len(got), s.nb, det), sess); continue
            if s.exact:
                d = np.abs(got-want)-tol-rel*want; j = int(np.argmax(d))
                rep.true(d[j] <= 1e-300, "%s/%s" % (key, nm), "bin %d holds %.9g, the sum over its modes is %.9g (rounding allowance %.2g); %s" % (j, got[j], want[j], tol[j]+rel*want[j], det), sess)
                if want[j] > 0: rep.maxof("rounding/"+key, float(np.max(np.abs(got-want)/np.maximum(tol+rel*want, 1e-300))))
            else:	# user bins: modes exactly on an edge may fall on either side, cumulative sums bracket them
                am = np.bincount(np.clip(s.bin[s.amb], 0, s.nb), minlength=s.nb+2)
                c = np.abs(np.cumsum(got)-np.cumsum(want)); lim = np.cumsum(tol)+rel*np.cumsum(want)
                edge = np.zeros(s.nb, bool); ae = np.rint(np.sqrt(s.k2[s.amb])*s.mul()).astype(int); edge[np.clip(ae-1, 0, s.nb-1)] = True
                c[edge] = 0; d = c-lim; j = int(np.argmax(d))
                rep.true(d[j] <= 1e-300, "%s/%s" % (key, nm), "power up to bin %d is %.9g, the sum over its modes is %.9g; %s" % (j, np.cumsum(got)[j], np.cumsum(want)[j], det), sess)
            rep.close(got.sum(), want.sum(), rel*30+float(tol.sum()/max(want.sum(), 1e-300)), "%s/%s/total" % (key, nm), det, sess, scale=max(want.sum(), 1e-300))
    def mul(s):
        pm = int(np.floor(np.sqrt(2.*(s.shape[1]//2)**2+(s.shape[0]//2)**2)))+1; return s.nb/float(pm)

def sdmask(shape, prob, seed):
    i = np.arange(int(np.prod(shape)), dtype=np.uint64)
    with np.errstate(over="ignore"):
        h = i*np.uint64(0x9E3779B97F4A7C15)+np.uint64(seed)*np.uint64(0xD1B54A32D192ED03); h ^= h >> np.uint64(29); h *= np.uint64(0xBF58476D1CE4E5B9); h ^= h >> np.uint64(32)
    return ((h & np.uint64(1023)) < prob).reshape(shape)

WHAT = ["sax", "ax", "prun", "modes", "saxion", "smooth"]

def case(i, tier):
    g = fw.rng("C12", i, tier); prec = int([8, 4][i % 2]); what = WHAT[(i//2) % 6]
    ranks, threads = [(1, 1), (2, 3), (1, 4), (4, 2), (2, 1), (3, 2)][int(g.integers(0, 6))]
    field = SAXION if what in ("sax", "saxion") else int(g.choice([AXION, AXION_MOD]))
    base = [4, 6, 8, 10, 12, 16, 20, 24][int(g.integers(0, 8))]
    shf = cases.shift(prec, field); N = base if base % ranks == 0 and base % shf == 0 else {1: 8, 2: 8, 3: 24, 4: 8}[ranks]
    if what in ("prun", "modes", "smooth") and g.random() < .6:
        lz = int(g.integers(1, 9)); lz += (lz*ranks) % 2	# elongated or flat boxes
    else: lz = N//ranks
    Ng = 1
    while N*N*Ng < lz*N: Ng += 1
    if lz < Ng: lz = N//ranks
    shape = (lz*ranks, N, N); co, z, delta = cosmo(g, QCD1 | PQ1, N); R = co.R(z); dt = cases.dtypes(prec, field)
    c = dict(i=i, g=g, prec=prec, what=what, ranks=ranks, threads=threads, field=field, N=N, lz=lz, Ng=Ng, shape=shape, co=co, z=z, R=R, delta=delta, dt=dt)
    c["nbs"] = -1 if g.random() < .7 else int(g.integers(3, 60))
    c["mask"] = FLAT
    if field == SAXION:
        c["mask"] = int(g.choice([FLAT, FLAT, FLAT, VIL, VIL2, REDO, BALL])); lut = g.random() < .4; c["lut"] = lut
        a = co.mA2(z)/co.lamP(z); q = np.roots([1, 0, -1, -a]); q = q[abs(q.imag) < 1e-9].real.max()-1; c["sas"] = q*R
        for _ in range(50):
            if lut: th = g.uniform(-2, 2)*cases.smooth(g, shape, 1)*.3+g.uniform(-.6, .6); u = 1+.02*cases.smooth(g, shape, 1)
            elif g.random() < .5: th = g.uniform(-1.4, 1.4, shape); u = g.uniform(.6, 1.4, shape)
            else: th = g.uniform(-3, 3)+2*cases.smooth(g, shape, 1); u = g.uniform(.6, 1.4, shape)
            w = (th+np.pi) % (2*np.pi)-np.pi; nd = [np.abs(wrap(np.roll(th, -1, k)-th, 2*np.pi)).max() for k in range(3)]
            if np.min(np.pi-np.abs(w)) > 1e-4 and max(nd) < 2.9: break
        else: th = g.uniform(-1.4, 1.4, shape)
        c["m"] = (c["sas"]+R*u*np.exp(1j*th)).astype(dt); c["v"] = (R*(g.normal(size=shape)+1j*g.normal(size=shape))).astype(dt)
        if what == "sax":
            c["nrt"] = int(g.choice([NK, NG, NV, NK | NG | NV]) if lut else g.choice([NV, NCK, NCG, NCV, NCK | NCG | NV, NCK | NCG | NCV]))
        else: c["nrt"] = int(g.choice([NK, NK | NG, NK | NG | NV, NG, NV]))
    elif what == "ax":
        c["m"] = cases.axion_field(g, shape, R, str(g.choice(["rough", "smooth", "cluster"]))).astype(dt); c["v"] = (R*g.normal(size=shape)).astype(dt)
        c["mask"] = int(g.choice([FLAT, FLAT, AXIT2])); c["nrt"] = int(g.choice([NK, NG, NV, NS, NCK | NG, NK | NG | NV | NS, NCG | NCK | NCS, NG | NK | NCS]))
    else:
        f = {0: lambda: g.normal(size=shape), 1: lambda: 1+.3*g.normal(size=shape), 2: lambda: np.cos(2*np.pi*sum(k*x/n for k, x, n in zip(
            g.integers(-8, 9, 3), np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"), shape))+g.uniform(0, 6)), 3: lambda: np.eye(1, int(np.prod(shape)), int(g.integers(0, int(np.prod(shape))))).reshape(shape)*7.}
        c["m"] = f[int(g.integers(0, 4))]().astype(np.float64 if prec == 8 else np.float32)
        if what == "smooth": c["len"] = float(co.L*g.choice([g.uniform(.01, .4), 1./N])); c["flt"] = int(g.integers(0, 3)); c["pre"] = int(g.integers(0, 2))
        if what == "prun": c["pre"] = int(g.integers(0, 2))
    if c["mask"] in (REDO, BALL, AXIT2): c["sd"] = (int(g.choice([40, 500, 1000])), int(g.integers(1, 10**6)))
    return c

def oracle(c, acc):
    m = c["m"].astype(np.complex128 if c["field"] == SAXION else np.float64); R, d, co, z = c["R"], c["delta"], c["co"], c["z"]
    eps = 3e-16*4 if c["prec"] == 8 else 1.2e-7*3; kk = (2*np.pi/co.L)**2*acc.k2; mass2 = co.mA2(z)*R*R; S = m.shape
    if c["what"] in ("sax", "saxion", "ax"): v = c["v"].astype(m.dtype)
    msk = np.ones(S)
    if c["mask"] in (REDO, BALL, AXIT2): msk = 1.-sdmask(S, *c["sd"])
    if c["what"] == "modes":
        acc.out["NN"] = (np.bincount(acc.bin.ravel(), minlength=acc.nb+2).astype(float), np.zeros(acc.nb+2))
        acc.out["AK"] = (np.bincount(acc.bin.ravel(), acc.k2.ravel(), minlength=acc.nb+2), np.zeros(acc.nb+2)); return
    if c["what"] == "prun": acc.add("P", m, eps); return
    if c["what"] == "ax":
        if c["nrt"] & (NG | NCG | NV | NCV): acc.add("G", m*msk, eps, kk); acc.add("V", m*msk, eps, mass2)
        if c["nrt"] & (NK | NCK): acc.add("K", v*msk, eps)
        if c["nrt"] & (NS | NCS): acc.add("VNL", 2*R*np.sin(m/(2*R))*msk, eps, mass2, err=2*R*eps*np.max(np.abs(m/R)))
        return
    a = m-c["sas"]; ab = np.abs(a); wt = {FLAT: R*msk, REDO: R*msk, BALL: R*msk, VIL: ab, VIL2: ab**2/R}[c["mask"]]; er = eps*4*np.max(np.abs(c["m"]))/ab.min()*np.max(wt)
    if c["what"] == "saxion":
        dS = (a.conj()*v).real/ab/R-ab*co.Rp(z)/R; pre = {FLAT: R*msk, REDO: R*msk, BALL: R*msk, VIL: ab, VIL2: ab**2/R}[c["mask"]]; p2 = {FLAT: msk, REDO: msk, BALL: msk, VIL: ab/R, VIL2: (ab/R)**2}[c["mask"]]
        if c["nrt"] & NK: acc.add("K", pre*dS, eps, err=er*np.max(np.abs(v)/R)+er*co.Rp(z))
        if c["nrt"] & (NG | NV): acc.add("G", p2*(ab-R), eps, kk, err=8*eps*R*np.max(p2)); acc.add("V", p2*(ab-R), eps, 2*co.lamP(z)*R*R, err=8*eps*R*np.max(p2))
        return
    im = lambda n: (a.conj()*n).imag/ab**2
    t2 = lambda k, n: np.where(k == 0, 1., 2*(1-np.cos(2*np.pi*k/n))/np.where(k == 0, 1., 2*np.pi*k/n)**2)
    n = c["nrt"]; N = c["N"]
    if n & (NK | NCK): acc.add("K", wt*im(v), eps, err=er*np.max(np.abs(v))/ab.min())
    if n & NV:
        acc.add("VNL", 2*wt*np.sin(np.angle(a)/2), eps, mass2, err=2*er); acc.add("V", wt*np.angle(a), eps, mass2, err=3*er)
    if n & NCV: acc.add("V", wt*np.angle(a), eps, mass2, err=3*er)
    for ax, k in ((2, acc.kx), (1, acc.ky), (0, acc.kz)):
        if n & NG: acc.add("G", wt*im(np.roll(a, -1, ax)-np.roll(a, 1, ax))/(2*d), eps, 1/t2(np.abs(k), N), err=3*er/d)
        if n & NCG:
            p = np.roll(a, -1, ax); acc.add("G", 2*wt*((p-a)/(p+a)).imag/d, eps, 1/t2(np.abs(k), N), err=20*er/d/max(np.min(np.abs(p+a))/R, 1e-3)**2)

def lutskips(c, where=None):
    """the string-core table is not consulted anywhere: some gradient is small against the field at every site"""
    m = c["m"].astype(np.complex128); a = m-c["sas"]; sk = np.zeros(m.shape, bool)
    for ax in range(3):
        dd = .5*.4*(np.roll(m, -1, ax)-np.roll(m, 1, ax)); sk |= (np.abs(a.real) > 6*np.abs(dd.real)) | (np.abs(a.imag) > 6*np.abs(dd.imag))
    return sk.all() if where is None else sk[where].all()

def main(tier):
    rep = fw.Report("C12", tier, "one evaluation = one Fourier mode recounted into the bins of one spectrum; distinct = (spectrum, request, mask, bins, grid, precision, ranks, threads)")
    exe = build.build()["drv"]; n = {"quick": 156, "thorough": 3600}[tier]
    cs = [case(i, tier) for i in range(n)]; todo = []; by = {}
    for c in cs:
        if c["what"] == "sax" and c["lut"] and c["nrt"] & (NK | NG) and not lutskips(c): rep.count("skipped: string-core table in use"); continue
        by.setdefault((c["ranks"], c["threads"]), []).append(c)
    for (ranks, threads), l in by.items():
        for c in l:	# the transform plans are global per process: one lattice per session
            s = fw.Session(exe, ranks, threads); todo.append((s, c))
            for q in c["co"].cmds(): s.cmd(*q)
            s.cmd("new", c["prec"], c["N"], c["lz"], c["field"], 0, c["Ng"], 0, c["z"]); s.cmd("poison", "1e5", 1)
            if c["what"] in ("sax", "saxion", "ax"):
                s.load("m", c["m"]); s.load("v", c["v"])
                if "sd" in c: s.cmd("sdmask", *c["sd"], 8 if c["mask"] == AXIT2 else 4)
                c["h"] = s.cmd("spec", "nsrun" if c["what"] == "saxion" else "nrun", c["nbs"], c["nrt"], c["mask"])
                if c["what"] != "saxion" and c["i"] % 3 == 0: c["h2"] = s.cmd("spec", "nrun", c["nbs"], c["nrt"], c["mask"])
            elif c["what"] == "modes": c["h"] = s.cmd("spec", "nmod", c["nbs"]); c["h2"] = s.cmd("spec", "avek", c["nbs"])
            elif c["what"] == "prun":
                s.load("m2r", c["m"]); s.cmd("setm2", 0)
                c["h"] = s.cmd("spec", "prun", c["nbs"]); c["h2"] = s.cmd("spec", "prun", -1)
            else:
                s.load("m2r", c["m"]); s.cmd("setm2", 0)
                s.cmd("smooth", c["len"], c["flt"]); c["d"] = s.dump("m2pad", c["m"].dtype, (c["shape"][0], c["N"], c["N"]+2))
                if c["pre"]: s.cmd("smooth", c["len"]*.7, (c["flt"]+1) % 3); c["d2"] = s.dump("m2pad", c["m"].dtype, (c["shape"][0], c["N"], c["N"]+2))
            s.cmd("del")
    fw.run_all([t[0] for t in todo])
    for s, c in todo:
        key = "%s/%s" % ({"sax": "complex", "ax": "axion", "prun": "density", "modes": "modes", "saxion": "radial", "smooth": "smoothing"}[c["what"]], "double" if c["prec"] == 8 else "single")
        det = "case %d N=%d lz=%d ranks=%d threads=%d bins=%d request=%s mask=%d" % (c["i"], c["N"], c["lz"], c["ranks"], c["threads"], c["nbs"], c.get("nrt"), c["mask"])
        if s.err: rep.count("failed: "+det); rep.session_error(s.err, key, s); s.clean(); continue
        rel = 1e-11 if c["prec"] == 8 else 2e-5; V = int(np.prod(c["shape"]))
        if c["what"] == "smooth":
            f = c["m"].astype(np.float64); kz, ky, kx, k2 = ints(c["shape"]); F = np.fft.fftn(f)
            for nm, ln, ft in (("d", c["len"], c["flt"]), ("d2", c["len"]*.7, (c["flt"]+1) % 3)):
                if nm not in c: continue
                x = 2*np.pi/c["co"].L*ln*np.sqrt(k2); xs = np.where(x > 0, x, 1.)
                W = [np.exp(-.5*x*x), np.where(x > 0, 3*(np.sin(xs)-xs*np.cos(xs))/xs**3, 1.), (x <= 1.)*1.][ft]
                if ft == 2 and np.min(np.abs(x-1)) < 1e-5: rep.count("sharp filter on a mode: undecided"); continue
                w = np.fft.ifftn(F*W).real; got = s.get(c[nm])[:, :, :c["N"]]
                rep.close(got, w, (1e-12 if c["prec"] == 8 else 2e-5 if ft != 1 else 2e-4), key+"/"+["gauss", "tophat", "sharp"][ft], det, s, scale=np.max(np.abs(f)))
                rep.observe((key, ft, c["shape"], c["ranks"], c["threads"]), V)
            s.clean(); continue
        acc = Acc(c["shape"], c["nbs"], c["co"].L); oracle(c, acc); e = s.at(c["h"])
        if c["what"] == "modes":
            acc2 = Acc(c["shape"], c["nbs"], c["co"].L); oracle(c, acc2); del acc.out["AK"], acc2.out["NN"]
            acc.check(rep, e, key, det, s, 1e-12); acc2.check(rep, s.at(c["h2"]), key, det, s, 1e-12)
            rep.close(sum(e["NN"]), V, 1e-13, key+"/count", det, s)
        elif c["what"] == "prun":
            acc.check(rep, e, key, det, s, rel); a2 = Acc(c["shape"], -1, c["co"].L); oracle(c, a2); a2.check(rep, s.at(c["h2"]), key+"/again", det, s, rel)
            P = .5*c["co"].L**3*np.mean(c["m"].astype(float)**2); rep.close(sum(e["P"]), P, rel*30, key+"/parseval", det, s, scale=P)
        else:
            acc.check(rep, e, key, det, s, rel, ("K", "G", "V", "VNL"))
            if "h2" in c: acc.check(rep, s.at(c["h2"]), key+"/again", det, s, rel, ("K", "G", "V", "VNL"))
        rep.observe((key, c.get("nrt"), c["mask"], c["nbs"] < 0, c["shape"], c["ranks"], c["threads"]), V*len(acc.out)); s.clean()
    return rep.finish(50000)
