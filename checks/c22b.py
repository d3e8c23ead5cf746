"""C22, dispatched: the masks, masked spectra and masked energies a measurement of the running program stores, for lists of radii in string-core units."""
import os
import numpy as np
import ref, cases, fw, build, h5
from ref import *
from c02 import cosmo
import c09, c10, c12
B_MASK, B_NSA = 8192, 65536
K, G_, V, CK, CG, CV = 1, 2, 4, 16, 32, 64
LAB = {2: "Vi", 4: "Vi2", 64: "Bal", 8: "Red", 16: "Gau", 32: "Dif"}

def case(i, tier, c22):
    g = fw.rng("C22", "dispatch", i, tier); prec = int([8, 4][i % 2]); ranks, threads = [(1, 3), (2, 3), (4, 2), (2, 1)][int(g.integers(0, 4))]
    N = int([12, 16, 20][int(g.integers(0, 3))] if ranks < 4 else [16, 20][int(g.integers(0, 2))]); shf = cases.shift(prec, SAXION)
    while N % shf or N % ranks: N += 1
    lz = N//ranks; Ng = 1
    while N*N*Ng < lz*N: Ng += 1
    sh = (N, N, N); co, z, delta = cosmo(g, QCD1 | PQ1, N); R = co.R(z); dt = cases.dtypes(prec, SAXION)
    a = co.mA2(z)/co.lamP(z); q = np.roots([1, 0, -1, -a]); sas = (q[abs(q.imag) < 1e-9].real.max()-1)*R
    m = (c10.field(g, sh, R, ["loop", "pair", "ring", "face"][int(g.integers(0, 4))])).astype(dt); v = (R*g.uniform(.1, 2)*(g.normal(size=sh)+1j*g.normal(size=sh))).astype(dt)
    msa = np.sqrt(2*co.lamP(z))*R*delta; n = int(g.choice([1, 2, 3])); rad = sorted(set(float(round(float(r*msa), 6)) for r in g.choice([1.5, 2., 2.3, 3., 3.9, 5.], n, replace=False)))
    c = dict(i=i, g=g, prec=prec, what="sax", ranks=ranks, threads=threads, field=SAXION, N=N, lz=lz, Ng=Ng, shape=sh, co=co, z=z, R=R, delta=delta, dt=dt, q=QCD1, pq=PQ1, sas=sas, shf=sas, m=m, v=v, msa=msa, calib=1.25, eps=2e-16 if prec == 8 else 1e-7)
    c["list"] = i % 3 != 2
    if not c["list"]: rad = rad[:1]
    if i % 11 == 10: rad = [2.]; c["list"] = None		# nothing said: the documented default
    c["rad"] = [r for r in rad if r/msa <= lz] or [float(round(1.5*msa, 6))]
    if c["list"] is None and 2./msa > lz: c["list"] = False
    mk = 0
    for b in (64, 8, 32, 16): mk |= b if g.random() < .55 else 0
    c["spm"] = mk or [64, 8, 32, 16][i % 4]; c["bits"] = int([B_MASK, B_NSA, B_MASK | B_NSA][int(g.integers(0, 3))]); c["nrt"] = int(g.choice([CK, CG, CK | CG, CV | CK, CK | CG | CV, V, V | CK, V | CV | CG, K | G_ | V, G_ | CK | CG | CV, G_])); c["bits"] |= 32 if g.random() < .6 else 0; c["sm"] = int(g.integers(0, 8)); c["spm"], c["bits"], c["sm"] = (c["spm"] | 8, B_MASK | B_NSA, c["sm"] | 4) if i % 9 == 4 else (c["spm"], c["bits"], c["sm"]); c["spm"] |= int(g.choice([0, 0, 2, 4, 6])); c["W"], c["wall"], c["marg"] = c10.oracle(m)
    return c

def spectra(c, msk, acc, n):
    """masked velocity, potential and gradient (one-sided differences, undone in Fourier space): the field times the mask"""
    a = c["m"].astype(complex)-c["sas"]; v = c["v"].astype(complex); R, d, co = c["R"], c["delta"], c["co"]; eps = 3e-16*4 if c["prec"] == 8 else 1.2e-7*3; ok = msk > 0; big = np.max(np.abs(c["m"]))
    ab = np.where(ok, np.abs(a), np.inf); inv = np.where(ok, 1/np.where(ok, np.abs(a), 1)**2, 0.); er = eps*4*big/ab.min()*R
    if n & (CK | K): acc.add("K", msk*R*(a.conj()*v).imag*inv, eps, err=er*np.max(np.abs(v))/ab.min())
    if n & (CV | V): acc.add("V", msk*R*np.where(ok, np.angle(a), 0), eps, co.mA2(c["z"])*R*R, err=3*er)
    if n & V: acc.add("VNL", msk*2*R*np.where(ok, np.sin(np.angle(a)/2), 0), eps, co.mA2(c["z"])*R*R, err=3*er)
    if n & (CG | G_):
        t2 = lambda k, n: np.where(k == 0, 1., 2*(1-np.cos(2*np.pi*k/n))/np.where(k == 0, 1., 2*np.pi*k/n)**2)
        for ax, k in ((2, acc.kx), (1, acc.ky), (0, acc.kz)):
            if n & G_: acc.add("G", msk*R*((a.conj()*(np.roll(a, -1, ax)-np.roll(a, 1, ax))).imag*inv)/(2*d), eps, 1/t2(np.abs(k), c["N"]), err=20*er/d); continue
            p = np.roll(a, -1, ax); q = np.where(ok, p+a, 1.); acc.add("G", msk*np.where(ok, 2*R*((p-a)/q).imag/d, 0.), eps, 1/t2(np.abs(k), c["N"]), err=20*R*eps*4*big/ab.min()/d/max(np.min(np.abs(q[ok]))/R, 1e-3)**2)

def run(rep, tier, c22):
    exe = build.build()["drv"]; n = {"quick": 84, "thorough": 900}[tier]; todo = []
    for i in range(n):
        c = case(i, tier, c22); args = ["--spmask", str(c["spm"]), "--spKGV", str(c["nrt"]), "--strmeas", str(c["sm"])]
        if c["list"] is not None: args += ["--rmask", "file" if c["list"] else repr(c["rad"][0])]
        c["args"] = args; s = fw.Session(exe, c["ranks"], c["threads"], args=args, N=c["N"], Lz=c["lz"]); todo.append((s, c))
        if c["list"]:
            sh = list(c["rad"]); c["g"].shuffle(sh); open(s.dir+"/rmasktable.dat", "w").write("".join("%.6f\n" % r for r in sh+sh[:1]))
        for k in c["co"].cmds(): s.cmd(*k)
        s.cmd("new", c["prec"], c["N"], c["lz"], SAXION, 0, c["Ng"], 0, c["z"]); s.cmd("poison", "1e5", 1); s.load("m", c["m"]); s.load("v", c["v"])
        s.cmd("strings"); c["sd0"] = s.dump("str", np.uint8, c["shape"]); s.cmd("meas", 3, c["bits"]); s.cmd("unfold"); c["hm"] = s.dump("m", c["dt"], c["shape"])
    fw.run_all([t[0] for t in todo])
    for s, c in todo:
        dp = c["prec"] == 8; key = "dispatched/"+("double" if dp else "single"); det = "case %d bits=%d args=%s radii=%s (%s sites) N=%d ranks=%d threads=%d" % (c["i"], c["bits"], " ".join(c["args"]), c["rad"], ["%.3f" % (r/c["msa"]) for r in c["rad"]], c["N"], c["ranks"], c["threads"])
        if s.err: rep.count("failed: "+det); rep.session_error(s.err, key, s); s.clean(); continue
        rep.true(s.get(c["hm"]).tobytes() == c["m"].tobytes(), key+"/field", "the measurement changed the field; "+det, s)
        sd0 = s.get(c["sd0"]) & 127; pm = s.dir+"/out/m/axion.m.00003"
        if not os.path.exists(pm): rep.true(False, key+"/file", "no measurement file; "+det, s); s.clean(); continue
        try: F = h5.File(pm)
        except (OSError, ValueError) as e: rep.true(False, key+"/file", "measurement file unreadable (%s); %s" % (str(e)[-80:], det), s); s.clean(); continue
        rel = 1e-9 if dp else 1e-3; wanted = set()
        D, S = c09.dens(c); tol = 3e-13 if dp else 2e-6
        def ds(nm):
            wanted.add(nm); a = F.get(nm)
            if a is None: rep.true(False, key+"/missing", "%s requested but not stored; %s" % (nm, det), s)
            return a
        if c["marg"] > 2e-5 and c["bits"] & 32:
            A = lambda n: F.get("/string@String "+n); num = sum(int(np.abs(w).sum()) for w in c["W"].values())
            if A("number") is None: rep.true(False, key+"/missing", "strings requested but not stored; "+det, s)
            else:
                rep.true(int(A("number")) == num and int(F["/string@Wall number"]) == int(c["wall"].sum()) and int(A("chirality")) == sum(int(w.sum()) for w in c["W"].values()), key+"/strings", "%s strings, chirality %s, %s walls stored, %d, %d, %d expected; %s" % (A("number"), A("chirality"), F["/string@Wall number"], num, sum(int(w.sum()) for w in c["W"].values()), c["wall"].sum(), det), s)
                L, worst, odd, x6, x4 = c10.length(c["m"], c["W"])
                if c["sm"] & 1 and worst > 1e-3: rep.close(A("length"), L, 1e-11 if dp else 1e-5, key+"/string-length", det, s, scale=max(L, 1.))
                if c["sm"] & 2 and num:
                    for nm, w in zip(("number with gamma", "velocity", "velocity squared", "gamma"), c10.gamma(c)): rep.close(A(nm), w, 1e-12 if dp else 2e-5, key+"/string-"+nm.replace(" ", "-"), det, s, scale=max(abs(w), 1e-3))
                rep.evals += 3*c["m"].size
        for b in (64, 8, 16, 32, 2, 4):
            if not c["spm"] & b: continue
            for r in c["rad"][:1] if b < 8 else c["rad"]:
                lab = "%s_%.2f" % (LAB[b], r) if b >= 8 else LAB[b]; flag, ex, amb = c22.want(dict(c, mask=b, r=r/c["msa"]), sd0, c["m"]); kk = "%s/%s" % (key, LAB[b]); un = amb.any(); rep.count("masks with undecided sites" if un else "masks decided")
                a = ds("/mSpectrum/W_%s/data" % lab)
                if a is not None and not un:
                    acc = c12.Acc(c["shape"], -1, c["co"].L); acc.add("P", ex, c["eps"]*50); acc.out["P"] = tuple(2*q for q in acc.out["P"]); e = dict(P=a); acc.check(rep, e, kk+"/spectrum", "W_%s; %s" % (lab, det), s, rel, ("P",)); rep.evals += ex.size
                if c["bits"] & B_MASK:
                    a = ds("/map/W_"+lab)
                    if a is not None:
                        w = np.asarray(a).reshape(c["N"], c["N"]).astype(float); t = (1-ex).mean(0); bad = (np.abs(w-t) > (1e-10 if dp else 3e-5)*30) & ~amb.any(0); rep.true(not bad.any(), kk+"/map", "W_%s: %d of %d columns differ; %s" % (lab, bad.sum(), bad.size, det), s); rep.evals += w.size
                if not c["bits"] & B_NSA: continue
                for bit, nm, k in ((K, "sK", "K"), (G_, "sG", "G"), (V, "sV", "V"), (V, "sS", "VNL"), (CK, "sCK", "K"), (CG, "sCG", "G"), (CV, "sCV", "V")):
                    if not c["nrt"] & bit: continue
                    if nm == "sS": continue	# only stored with its own request
                    a = ds("/eSpectrum/%s_%s/data" % (nm, lab)); msk = 1.-flag if b in (8, 64) else ex
                    if a is None or un or b < 8 or flag is None or flag.all(): continue
                    if bit in (K, G_) and not c12.lutskips(c, msk > 0): rep.count("string-core table in use"); continue
                    acc = c12.Acc(c["shape"], -1, c["co"].L); spectra(c, msk, acc, bit); acc.out = {k: acc.out[k]}
                    acc.check(rep, {k: a}, "%s/field-spectrum-%s" % (kk, nm), "%s; %s" % (lab, det), s, 1e-9 if dp else 1e-3, (k,)); rep.evals += ex.size; rep.count("masked spectra "+nm)
                if b == 8:
                    p = "/energy/Redmask_%.2f@" % r; M = flag; nmk = F.get(p+"Number of masked points"); 
                    if nmk is None: rep.true(False, kk+"/missing", "masked energies of radius %.2f; %s" % (r, det), s); continue
                    rep.true(abs(float(nmk)-M.sum()) <= amb.sum(), kk+"/masked-points", "%s stored, %d masked; %s" % (nmk, M.sum(), det), s)
                    if c["sm"] & 4 and not un and not M.all():
                        w, sc, scV = c10.strene(c, M); cond = w.pop("cond")
                        for nm, k in (("Masked axion energy density", "a"), ("Masked saxion energy density", "s"), ("String energy density", "str"), ("Masked axion energy density (Vil)", "aV"), ("Masked saxion energy density (Vil)", "sV"), ("String energy density (Vil)", "strV"), ("nout", "nout")):
                            got = F.get("/string/rmask_%.2f@%s" % (r, nm))
                            if got is None: rep.true(False, key+"/missing", "string energies of radius %.2f; %s" % (r, det), s); break
                            rep.close(float(got), w[k], 1e-12*(10+cond) if dp else 2e-6*(100+cond), kk+"/string-energy/"+k, "radius %.2f; %s" % (r, det), s, scale=w[k] if k == "nout" else (scV if k[-1] == "V" else sc))
                        rep.close(float(F.get("/string/rmask_%.2f@rmask" % r, -1)), r, 1e-9, kk+"/string-energy/radius", det, s)
                    if not un and M.any():
                        for nm, k in (("Axion Gr X", "THGX"), ("Axion Gr Y", "THGY"), ("Axion Gr Z", "THGZ"), ("Axion Kinetic", "THK"), ("Axion Potential", "THV"), ("Saxion Gr X", "RHGX"), ("Saxion Gr Y", "RHGY"), ("Saxion Gr Z", "RHGZ"), ("Saxion Kinetic", "RHK"), ("Saxion Potential", "RHV")):
                            rep.close(F[p+nm+" nMask"], D[k][M].mean(), tol, kk+"/energy/"+k, "radius %.2f; %s" % (r, det), s, scale=max(S[k][M].mean(), 1e-300)); rep.evals += int(M.sum())
        names = {d for d in F.dsets if d.startswith("/mSpectrum/") or d.startswith("/map/W")}
        rep.true(names <= wanted, key+"/unrequested", "%s; %s" % (sorted(names-wanted)[:4], det), s); rep.count("datasets compared", len(wanted))
        rep.observe((key, c["spm"], c["bits"], c["nrt"], len(c["rad"]), c["ranks"]), 1); s.clean()
