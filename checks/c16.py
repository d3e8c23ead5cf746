"""C16: contents of measurement files against quantities recomputed from the loaded field, and the schedule of the real main program."""
import os, re
import numpy as np
import cases, fw, build, h5
from ref import *
from c02 import cosmo
import c09, c10, c12, c20
import c16b

B = dict(BT=1, BR=2, BL=4, BD=8, STR=32, STRMAP=64, ENE=256, E3=512, RED=1024, C3=4096, PSA=16384, PSS=32768, NSA=65536, NSS=131072, NN=262144, MULTI=524288)
NEED = 575240; NEEDM2 = 574984
K, G_, V, S_, CK, CG, CV, CS = 1, 2, 4, 8, 16, 32, 64, 128
NM = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod", PAXION: "paxion"}

def case(i, tier):
    g = fw.rng("C16", i, tier); prec = int([8, 4][i % 2]); field = [SAXION, AXION, SAXION, AXION, PAXION, SAXION, AXION_MOD][(i//2) % 7]
    ranks, threads = [(1, 1), (2, 3), (1, 4), (4, 2), (2, 1)][int(g.integers(0, 5))]
    sh = cases.shift(prec, field); mult = int(np.lcm(sh, ranks)); cub = g.random() < .6
    N = mult*int(g.integers(max(1, 8//mult), 24//mult+1)); 
    while N < 8 or N < 3*sh: N += mult
    lz = N//ranks if cub else int(g.integers(2, 9))
    Ng = int(g.choice([1, 1, 2]))
    while N*N*Ng < lz*N: Ng += 1
    if lz < Ng: lz = Ng
    shape = (lz*ranks, N, N); cub = shape[0] == N
    co, z, delta = cosmo(g, QCD1 | PQ1, N); R = co.R(z); dt = cases.dtypes(prec, field)
    c = dict(i=i, g=g, prec=prec, field=field, ranks=ranks, threads=threads, N=N, lz=lz, Ng=Ng, shape=shape, cub=cub, co=co, z=z, R=R, delta=delta, dt=dt, q=QCD1, pq=PQ1, mask=1, what="sax" if field == SAXION else "ax")
    a = co.mA2(z)/co.lamP(z); q = np.roots([1, 0, -1, -a]); c["sas"] = (q[abs(q.imag) < 1e-9].real.max()-1)*R if field == SAXION else 0.
    c["shf"] = c["sas"]
    if field == SAXION:
        for _ in range(80):
            th = g.uniform(-1, 1)*cases.smooth(g, shape, 1)*2+(g.uniform(-3, 3, shape) if g.random() < .5 else g.uniform(-.3, .3, shape)); u = g.uniform(.6, 1.4, shape)
            m = (c["sas"]+R*u*np.exp(1j*th)).astype(dt); W, wall, marg = c10.oracle(m)
            t = np.angle(m.astype(complex)-c["sas"]); nd = [np.abs(wrap(np.roll(t, -1, k)-t, 2*np.pi)).max() for k in range(3)]
            if marg > 2e-5 and np.min(np.pi-np.abs(t)) > 1e-4 and max(nd) < 3.13: break
        c.update(m=m, v=(R*g.uniform(.1, 2)*(g.normal(size=shape)+1j*g.normal(size=shape))).astype(dt), W=W, wall=wall, marg=marg, nd=max(nd))
    elif field == PAXION: c.update(m=g.normal(size=shape).astype(dt), v=g.normal(size=shape).astype(dt))
    else:
        m = cases.axion_field(g, shape, R, str(g.choice(["rough", "smooth", "cluster"]))); m = wrap(m, 2*np.pi*R)*.98 if field == AXION_MOD else m
        c.update(m=m.astype(dt), v=(R*g.uniform(.1, 2)*g.normal(size=shape)).astype(dt))
    # request
    p = .75 if i % 5 == 0 else g.uniform(.15, .7); bits = 0
    for k in ("BT", "BL", "BD", "ENE", "E3", "RED", "C3", "PSA", "NN", "NSA") + (("BR", "STR", "STRMAP", "PSS", "NSS") if field == SAXION else ()):
        if g.random() < p: bits |= B[k]
    if g.random() < .12: bits |= B["MULTI"]
    if not cub or field == PAXION: bits &= ~(B["NSA"] | B["NSS"])
    if field == PAXION: bits &= ~(B["BT"] | B["BL"])
    lzr = 0
    if bits & B["RED"]:
        opts = [r for r in range(2, N) if (lz*r)//N >= 1 and (lz*r)//N < lz]
        if opts and field != PAXION: c["red"] = int(g.choice(opts)); lzr = (lz*c["red"])//N
        else: bits &= ~B["RED"]
    if bits & B["MULTI"] and (not cub or N > 12 or field not in (SAXION, AXION)): bits &= ~B["MULTI"]
    c["nrt"] = int(g.choice([V, CK | CG | V, CG, CK, CV | CG, K, G_, K | G_ | V, K | V | S_])) if field == SAXION else int(g.choice([7, 15, K, G_, V, S_, G_ | CS, CK | CG | V, 15]))
    c["smask"] = int(g.choice([1, 1, 1, 2, 4, 3, 7])) if field == SAXION else 1
    c["bits"] = bits; c["idx"] = int(g.choice([0, 1, 5, 123, 40000])); c["slice"] = int(g.integers(0, min(shape[0], N))); c["mxy"], c["myz"], c["mE"], c["mP"], c["mP2"] = [bool(g.random() < p) for _ in range(5)]
    c["second"] = bool(g.random() < .5); c["fold"] = int(g.integers(0, 2))
    c["args"] = ["--spmask", str(c["smask"]), "--spKGV", str(c["nrt"]), "--sliceprint", str(c["slice"])]
    for k, o in (("mxy", "--p2Dmap"), ("myz", "--p2DmapYZ"), ("mE", "--p2DmapE"), ("mP", "--p2DmapPE"), ("mP2", "--p2DmapPE2")):
        if c[k]: c["args"].append(o)
    if "red" in c: c["args"] += ["--redmp", str(c["red"])]
    return c

def hist(rep, F, nm, y, eps, key, det, s, nb=3000):
    """recount of a stored histogram"""
    if F.get("/bins/%s/data" % nm) is None: rep.true(False, key+"/missing", "/bins/%s requested but not stored; %s" % (nm, det), s); return
    y = y.astype(np.float64).ravel(); y = y[np.isfinite(y)]; mn, mx = y.min(), y.max(); emx, emn = F["/bins/%s@Maximum" % nm], F["/bins/%s@Minimum" % nm]
    rep.true(int(F["/bins/%s@Size" % nm]) == nb, key+"/size", det, s)
    rep.close(emn, mn, eps, key+"/min", det, s, scale=max(abs(mn), abs(mx), 1e-300)); rep.close(emx, mx, eps, key+"/max", det, s, scale=max(abs(mx), abs(mn), 1e-300))
    if mx-mn < 1e-6*max(1, abs(mx)): return
    st = (emx-emn)/(nb-1); b = np.asarray(F["/bins/%s/data" % nm])*st*y.size; t = (y-(emn-st/2))/st; w = max(8*eps*max(abs(mn), abs(mx))/st, 1e-7)
    if w > .3: rep.count("bins narrower than rounding"); return
    lo, hi = np.floor(t-w), np.floor(t+w)
    sure = np.bincount(np.clip(lo[lo == hi], 0, nb-1).astype(int), minlength=nb).astype(float); amb = np.zeros(nb)
    for q in (lo, hi): np.add.at(amb, np.clip(q[lo != hi], 0, nb-1).astype(int), 1)
    rep.true((b > sure-.01).all() and (b < sure+amb+.01).all(), key+"/counts", det, s); rep.close(b.sum(), float(y.size), 1e-9, key+"/total", det, s)

class E(dict):
    def __missing__(s, k): return []

def judge(rep, c, s, F, conf, idx):
    f = c["field"]; bits = c["bits"]; dp = c["prec"] == 8; key = "%s/%s" % (NM[f], "double" if dp else "single"); shape = c["shape"]; N = c["N"]
    det = "case %d idx=%d bits=%d args=%s N=%d lz=%d Ng=%d ranks=%d threads=%d folded=%d" % (c["i"], idx, bits, " ".join(c["args"]), N, c["lz"], c["Ng"], c["ranks"], c["threads"], c["fold"])
    co, z, R = c["co"], c["z"], c["R"]; want = set(); opt = set()
    m64 = c["m"].astype(np.complex128 if f == SAXION else np.float64)
    # header
    for a, w in (("z", z), ("R", R), ("Physical size", co.L)): rep.close(F["/@"+a], w, 1e-12, key+"/attr-"+a, det, s, scale=abs(w))
    for a, w in (("Size", N), ("Depth", shape[0])): rep.true(int(F["/@"+a]) == w, key+"/attr-"+a, "%s stored, %s expected; %s" % (F["/@"+a], w, det), s)
    rep.true(str(F["/@Precision"]).strip() == ("Double" if dp else "Single"), key+"/attr-prec", det, s)
    rep.close(F["/@Axion mass"], np.sqrt(co.mA2(z)), 1e-9, key+"/attr-mass", det, s, scale=np.sqrt(co.mA2(z)))
    # slices, written as stored
    sl = c["slice"]
    def pair(grp, mm, vv):
        for nm, x in (("m", mm), ("v", vv)):
            want.add("/%s/%s" % (grp, nm)); got = F.get("/%s/%s" % (grp, nm))
            if got is None: rep.true(False, key+"/missing/"+grp, "/%s/%s requested but not stored; %s" % (grp, nm, det), s); continue
            rep.true(np.ascontiguousarray(got).tobytes() == np.ascontiguousarray(x).tobytes(), key+"/slice-"+grp, "/%s/%s is not slice %d of the field; %s" % (grp, nm, sl, det), s); rep.evals += x.size
    if bits & ~B["C3"] == 0:
        rep.true(F is None, key+"/file", "a measurement file was written although nothing is measured; "+det, s); return
    if c["mxy"]: pair("map", c["m"][sl], c["v"][sl])
    if c["myz"]: pair("mapp", c["m"][:, :, sl], c["v"][:, :, sl])
    # energies
    maps = c["mE"] or c["mP"] or c["mP2"]; D, S = c09.dens(c); tol = 3e-13 if dp else 2e-6
    ene = bool(bits & NEED) or maps; m2 = bool(bits & NEEDM2) or maps
    def ds(nm):
        want.add(nm); a = F.get(nm)
        if a is None: rep.true(False, key+"/missing/"+nm, "%s requested but not stored; %s" % (nm, det), s)
        return a
    names = {"Axion Gr X": "THGX", "Axion Gr Y": "THGY", "Axion Gr Z": "THGZ", "Axion Kinetic": "THK", "Axion Potential": "THV", "Saxion Gr X": "RHGX", "Saxion Gr Y": "RHGY", "Saxion Gr Z": "RHGZ", "Saxion Kinetic": "RHK", "Saxion Potential": "RHV", "Saxion vev": "RHO"}
    names = {"/energy@"+k: v for k, v in names.items()}
    if ene:
        for nm, k in names.items():
            if k not in D: rep.true(nm not in F.attrs, key+"/unrequested", nm+" "+det, s); continue
            if nm not in F.attrs: rep.true(False, key+"/missing/energy", "%s not stored; %s" % (nm, det), s); continue
            rep.close(F[nm], D[k].mean(), tol, key+"/energy/"+k, det, s, scale=max(S[k].mean(), 1e-300)); rep.evals += D[k].size
    else: rep.true(not any(k in F.attrs for k in names), key+"/unrequested", "energies "+det, s)
    if f == PAXION: ed = D["THK"]; sc = S["THK"]
    else:
        ks = [k for k in D if k.startswith("TH")]; ed = sum(D[k] for k in ks); sc = sum(S[k] for k in ks)
    def cmp(a, w, scale, k, t=4*tol):
        if a is None: return
        if a.size != w.size: rep.true(False, key+"/"+k+"/size", "%d values stored, %d expected; %s" % (a.size, w.size, det), s); return
        bad = ~(np.abs(a.reshape(w.shape)-w) <= t*np.maximum(scale, 1e-300)); rep.true(not bad.any(), key+"/"+k, "%d of %d sites differ; %s" % (int(bad.sum()), bad.size, det), s); rep.evals += w.size
    if c["mE"]: cmp(ds("/map/E"), ed[sl], sc[sl], "map-E")
    if c["mP"]: cmp(ds("/map/P"), ed.mean(0), sc.mean(0), "map-P")
    if c["mP2"]: cmp(ds("/map/P2" if c["mP"] else "/map/P"), (ed**2).mean(0), (sc**2).mean(0), "map-P2", 10*tol)
    if bits & B["E3"]:
        cmp(ds("/energy/density/theta"), ed, sc, "density")
        for a, w in (("Size", N), ("Depth", shape[0])): rep.true(int(F.get("/energy/density@"+a, -1)) == w, key+"/density-dims", det, s)
    if bits & B["BD"]:
        want.add("/bins/contB/data"); em = np.float32(sum(D[k].mean() for k in ("THGX", "THGY", "THGZ", "THK", "THV")))
        e = 3e-13 if dp else 4e-6
        if (ed > 1e-4*sc).all() and em > 0: hist(rep, F, "contB", np.log10(ed/float(em)), 3e-7 if dp else max(4e-6, 20*e*float(np.max(sc/ed))), key+"/contB", det, s)
        else: rep.count("contrast undecided")
    rel = 1e-11 if dp else 2e-5
    def spec(nm, arr, acc, k, r=rel):
        if arr is None: return
        e = E(); e[k] = arr; a2 = c12.Acc(shape, -1, co.L); a2.out = {k: acc.out.get(k, (np.zeros(acc.nb+2),)*2)}; a2.check(rep, e, key+"/spectrum-"+nm, det, s, r, (k,)); rep.evals += c["m"].size
    if m2 and bits & (B["PSA"] | B["RED"] | B["MULTI"]):
        acc = c12.Acc(shape, -1, co.L); acc.add("P", ed, 3e-16*4 if dp else 1.2e-7*3, err=float(np.sqrt(np.mean(sc**2)))*tol); spec("sP", ds("/pSpectrum/sP/data"), acc, "P")
    if bits & B["RED"]:
        r = c["red"]; nz = (c["lz"]*r)//N; sf = N/float(r); eFc = .5*np.pi**2*sf*sf/(N*N)
        w = c20.reduced(ed, c["ranks"], r, nz, lambda x, y, zz: np.exp(-eFc*(x*x+y*y+zz*zz))); cmp(ds("/energy/rdensity/theta"), w, np.full(w.shape, np.abs(sc).max()), "rdensity", 1e-11 if dp else 2e-5)
        for a, v in (("Size", r), ("Depth", nz*c["ranks"])): rep.true(int(F.get("/energy/rdensity@"+a, -1)) == v, key+"/rdensity-dims", det, s)
    if bits & B["MULTI"]:
        n = int(4*np.log2(N)); F0 = np.fft.fftn(ed); kz, ky, kx, k2 = c12.ints(shape)
        for j in range(n+1):
            ln = .25*np.exp(np.log(4*N)*j/n)*co.L/N; x = 2*np.pi/co.L*ln*np.sqrt(k2); xs = np.where(x > 0, x, 1.); w = np.fft.ifftn(F0*np.where(x > 0, 3*(np.sin(xs)-xs*np.cos(xs))/xs**3, 1.)).real
            want.add("/bins/cont%03dB/data" % j); rep.close(float(F.get("/bins/cont%03dB@Smoothing Length" % j, -1)), ln, 1e-9, key+"/smoothing-length", det, s)
            cmp(ds("/map/P%03d" % j), w.mean(0), np.full((N, N), sc.max()), "smoothed-projection", 1e-11 if dp else 1e-4)
            em = float(np.float32(sum(D[k].mean() for k in ("THGX", "THGY", "THGZ", "THK", "THV"))))
            if w.min() > 1e-2*np.abs(w).max(): hist(rep, F, "cont%03dB" % j, np.log10(w/em), 1e-6 if dp else 1e-3, key+"/multi-contrast", det, s)
    # strings
    if f == SAXION:
        st = bits & (B["STR"] | B["STRMAP"])
        if not st and "/string@String number" in F.attrs: rep.count("strings stored without being requested"); st = True
        if st:
            n = sum(int(np.abs(w).sum()) for w in c["W"].values()); nw = int(c["wall"].sum())
            rep.true(int(F.get("/string@String number", -1)) == n, key+"/strings", "%s plaquettes stored, %d wind; %s" % (F.get("/string@String number"), n, det), s); rep.true(int(F.get("/string@Wall number", -1)) == nw, key+"/walls", "%s stored, %d cross; %s" % (F.get("/string@Wall number"), nw, det), s); rep.evals += c["m"].size
            if bits & B["STRMAP"]:
                fl = np.zeros(shape, np.uint8)
                for nm, u, v, p, q in c10.PL: fl |= np.where(c["W"][nm] > 0, p, 0).astype(np.uint8) | np.where(c["W"][nm] < 0, q, 0).astype(np.uint8)
                fl |= np.where(c["wall"], 64, 0).astype(np.uint8)
                a = ds("/string/data")
                if a is not None and a.size != fl.size: rep.true(False, key+"/string-map/size", "%d sites stored, %d expected; %s" % (a.size, fl.size, det), s)
                elif a is not None:
                    a = a.view(np.uint8).reshape(shape); bad = (a & 127) != fl; rep.true(not bad.any(), key+"/string-map", "%d sites, e.g. %d instead of %d; %s" % (bad.sum(), (a[bad] & 127)[:1].sum(), fl[bad][:1].sum(), det), s)
    # field histograms
    eps = 1e-13 if dp else 5e-7; m = c["m"].astype(np.complex128 if f == SAXION else np.float64)
    if f in (SAXION, AXION):
        th = np.angle(m) if f == SAXION else m/R
        if bits & B["BT"]: want.add("/bins/thetaB/data"); hist(rep, F, "thetaB", th, eps, key+"/thetaB", det, s)
        if bits & B["BL"]:
            want.add("/bins/logtheta2B/data"); y = np.log10(1e-10+th**2); rel2 = 2e-6 if f != SAXION or not dp else 1e-12
            dy = float(np.max(np.abs(np.log10(1e-10+(np.abs(th)+eps*np.maximum(np.abs(th), 1 if f == SAXION else 0))**2)-y))); hist(rep, F, "logtheta2B", y, max(rel2, dy/max(np.abs(y).max(), 1e-9)), key+"/logtheta2B", det, s)
        if bits & B["BR"] and f == SAXION: want.add("/bins/rhoB/data"); hist(rep, F, "rhoB", np.abs(m)/R, eps, key+"/rhoB", det, s)
    # number spectra
    if bits & (B["NSA"] | B["NSS"] | B["NN"]):
        if bits & B["NN"] or idx == 0:
            acc = c12.Acc(shape, -1, co.L)
            for nm, w in (("nmodes", np.bincount(acc.bin.ravel(), minlength=acc.nb+2)), ("averagek", np.bincount(acc.bin.ravel(), acc.k2.ravel(), minlength=acc.nb+2))):
                a = ds("/nSpectrum/%s/data" % nm)
                if a is not None: rep.close(a, w[:acc.nb].astype(float), 1e-12, key+"/"+nm, det, s)
        n = c["nrt"]
        for lab, mk in (("0", 1), ("Vi", 2), ("Vi2", 4)):
            if not c["smask"] & mk: continue
            if mk > 1: opt.add("/mSpectrum/W_%s/data" % lab)
            c2 = dict(c, mask=mk, nrt=n & (K | G_ | V | S_)); cc = dict(c, mask=mk, nrt=n & (CK | CG | CV | CS))
            lut = f == SAXION and n & (K | G_) and not c12.lutskips(c)
            ok = c["cub"] and f != PAXION
            a1 = c12.Acc(shape, -1, co.L) if ok else None; a2 = c12.Acc(shape, -1, co.L) if ok else None
            if a1: c12.oracle(c2, a1); c12.oracle(cc, a2)
            for b, nm, k, A in ((K, "sK", "K", a1), (G_, "sG", "G", a1), (V, "sV", "V", a1), (S_, "sS", "VNL", a1), (CK, "sCK", "K", a2), (CG, "sCG", "G", a2), (CV, "sCV", "V", a2), (CS, "sCS", "VNL", a2)):
                if not n & b: continue
                a = ds("/eSpectrum/%s_%s/data" % (nm, lab))
                if f == SAXION and b in (S_, CS) and not n & V: continue	# the nonlinear potential comes with the linear one
                if f == SAXION and b == CG and c.get("nd", 0) > 2.9: rep.count("pure gradient spectrum next to a branch point"); continue
                if lut and b in (K, G_): rep.count("string-core table in use"); continue
                if A is not None and a is not None: spec(nm, a, A, k)
            if f == SAXION and bits & B["NSS"]:
                a3 = c12.Acc(shape, -1, co.L) if ok else None
                if a3: c12.oracle(dict(c, what="saxion", mask=mk, nrt=n & 7), a3)
                for b, nm, k in ((K, "sKS", "K"), (G_, "sGS", "G"), (V, "sVS", "V")):
                    if n & b:
                        a = ds("/eSpectrum/%s_%s/data" % (nm, lab))
                        if a3 and a is not None: spec(nm, a, a3, k)
    extra = [d for d in F.dsets if d not in want and d not in opt]
    rep.true(not extra, key+"/unrequested", "stored without being requested: %s; %s" % (extra[:5], det), s); rep.count("datasets compared", len(want))
    if bits & B["C3"]:
        if conf is None: rep.true(False, key+"/missing/configuration", det, s)
        else:
            rep.true(np.ascontiguousarray(conf["/m"]).tobytes() == c["m"].tobytes() and np.ascontiguousarray(conf["/v"]).tobytes() == c["v"].tobytes(), key+"/configuration", det, s); rep.close(conf["/@z"], z, 1e-12, key+"/configuration-z", det, s); rep.evals += 2*c["m"].size
    else: rep.true(conf is None, key+"/unrequested", "configuration; "+det, s)
    rep.observe((key, bits, c["nrt"], c["smask"], c["ranks"], c["threads"]), 1)

def contents(rep, tier):
    exe = build.build()["drv"]; n = {"quick": 84, "thorough": 2400}[tier]; todo = []
    for c in (case(i, tier) for i in range(n)):
        s = fw.Session(exe, c["ranks"], c["threads"], args=c["args"], N=c["N"], Lz=c["lz"]); todo.append((s, c))
        for k in c["co"].cmds(): s.cmd(*k)
        s.cmd("new", c["prec"], c["N"], c["lz"], c["field"], 0, c["Ng"], 0, c["z"]); s.load("m", c["m"]); s.load("v", c["v"]); s.cmd("poison", "1e5", 1)
        if c["fold"]: s.cmd("fold")
        s.cmd("meas", c["idx"], c["bits"]); s.cmd("unfold"); c["hm"] = s.dump("m", c["dt"], c["shape"]); c["hv"] = s.dump("v", c["dt"], c["shape"])
        if c["second"]: s.cmd("fold"); s.cmd("meas", c["idx"]+1, c["bits"])
    fw.run_all([t[0] for t in todo])
    for s, c in todo:
        det = "case %d bits=%d field=%d args=%s" % (c["i"], c["bits"], c["field"], " ".join(c["args"]))
        if s.err: print(det); rep.session_error(s.err, "measurement", s); s.clean(); continue
        d = s.dir+"/out/m/"
        rep.true(s.get(c["hm"]).tobytes() == c["m"].tobytes() and s.get(c["hv"]).tobytes() == c["v"].tobytes(), NM[c["field"]]+"/field-changed", "the field differs after the measurement; "+det, s)
        for idx in [c["idx"]]+([c["idx"]+1] if c["second"] else []):
            pm, pc = d+"axion.m.%05d" % idx, d+"axion.%05d" % idx
            F = h5.File(pm) if os.path.exists(pm) else None; conf = h5.File(pc) if os.path.exists(pc) else None
            if F is None and c["bits"] & ~B["C3"]: rep.true(False, NM[c["field"]]+"/file", "no measurement file; "+det, s)
            elif F is not None: judge(rep, c, s, F, conf, idx)
        exp = {k % i for i in [c["idx"]]+([c["idx"]+1] if c["second"] else []) for k in (["axion.m.%05d"] if c["bits"] & ~B["C3"] else [])+(["axion.%05d"] if c["bits"] & B["C3"] else [])}
        rep.true(set(x for x in os.listdir(d) if x.startswith("axion.")) == exp, NM[c["field"]]+"/files", "%s written, expected %s; %s" % (sorted(os.listdir(d)), sorted(exp), det), s)
        s.clean()

def main(tier):
    rep = fw.Report("C16", tier, "one evaluation = one site entering a stored quantity (maps, means, spectra, histograms) recomputed from the field, or one fact of a schedule (file, index, time) compared; distinct = (field, precision, requested bits, spectra, masks, ranks, threads) or schedule")
    contents(rep, tier)
    c16b.schedule(rep, tier)
    return rep.finish(100000)
