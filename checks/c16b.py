"""Part B of C16: the schedule of the real main program (vaxion3d)."""
import os
import numpy as np
import cases, fw, h5, prog
from ref import *

def case(i, tier):
    g = fw.rng("C16B", i, tier); k = i % 6
    c = dict(i=i, g=g, prec=int(g.choice([8, 4])), field=AXION if k in (1, 4) else SAXION, lst=k in (2, 3, 4), theta=k == 5 or (k == 0 and g.random() < .3), wdz=bool(g.random() < .5))
    c["ranks"], c["threads"] = [(1, 1), (2, 2), (1, 3), (2, 1)][int(g.integers(0, 4))]
    N = c["N"] = 32 if c["theta"] else int(g.choice([16, 24] if c["field"] == SAXION or c["prec"] == 8 else [16, 32])); c["lz"] = N//c["ranks"]; c["Ng"] = int(g.choice([1, 2]))
    zi = c["zi"] = float(np.float32(g.uniform(.4, 1.5))); steps = c["steps"] = int(g.integers(3, 26)); L = N*zi*float(g.uniform(.2, .5)); d = L/N
    frw = float(g.choice([1., 1., .5])); nq = float(g.choice([7., 4., 1.]))
    zf = c["zf"] = zi+steps*d*float(g.uniform(.15, .3)); Rf = max(zi, zf)**frw; lam = .5/(d*Rf)**2; i3 = float(np.sqrt(.1/(d*Rf)**2/Rf**nq))
    if c["theta"]:
        zi, zf, L, lam, i3, nq, frw, steps, d = .5, float(g.uniform(.9, 1.3)), 2., 1000., 1., 7., 1., 200, 2./32; c.update(zi=zi, zf=zf, steps=steps, wdz=True)
    c["co"] = Cosmo(L=L, lam=lam, lz2e=0., indi3=i3, nqcd=nq, nqcdr=nq, pot=QCD1 | PQ1, frw=frw)
    bits = 0
    for b in (1, 2, 4, 8, 32, 64, 256, 512, 4096, 4096 | 256, 16384, 65536):
        if g.random() < .35: bits |= b
    if i % 9 == 7 and not c["lst"]: bits = 0
    if c["field"] == AXION: bits &= ~(2 | 32 | 64)
    if N > 16: bits &= ~512
    c["bits"] = bits; c["p3D"] = int(g.choice([0, 1, 2, 3, 3])) | (int(g.choice([0, 8, 16, 24])) if c["theta"] else 0)
    c["dump"] = int(g.integers(1, 12)) if not c["theta"] else int(g.integers(5, 40)); c["nrt"] = int(g.choice([6, 7, 4]))
    c["m2t"] = int(g.choice([0, 1, 257, 16384, 8])); c["idx0"] = 0
    a = ["--ctype", "spax" if c["field"] == AXION else "smooth", "--sIter", 4 if not c["theta"] else 100, "--kmax", 3, "--kcr", "0.5", "--lsize", repr(L), "--llcf", repr(lam), "--ind3", repr(i3), "--qcd", repr(nq), "--frw", repr(frw), "--zi", repr(zi),
         "--zf", repr(zf), "--steps", steps, "--dump", c["dump"], "--prop", "rkn4", "--lap", c["Ng"], "--ftype", "axion" if c["field"] == AXION else "saxion", "--prec", "double" if c["prec"] == 8 else "single", "--meas", bits,
         "--p3D", c["p3D"], "--spmask", 1, "--spKGV", c["nrt"], "--meas2theta", c["m2t"], "--sst0", 1 if c["theta"] else 100000]
    if not c["theta"] and c["field"] == SAXION: a += ["--notheta"]
    if c["wdz"]: a += ["--wDz", "%.3f" % (1. if c["theta"] else g.uniform(.5, 1.))]
    if g.random() < .25 and not c["theta"]: c["wkb"] = zf+.5*d if c["field"] == AXION else None
    c["defp"] = g.random() < .2
    if c["defp"]: a.append("--p3Def")
    c["red"] = N//2 if g.random() < .2 else 0
    if c["red"]: a += ["--redmp", c["red"]]
    if c.get("wkb"): a += ["--wkb", repr(c["wkb"])]
    c["mxy"], c["myz"] = bool(g.random() < .3), bool(g.random() < .2)
    if c["mxy"] or c["myz"]: c["bits"] |= 2048
    if c["mxy"]: a.append("--p2Dmap")
    if c["myz"]: a.append("--p2DmapYZ")
    c["mf"] = None
    if c["lst"]:
        n = int(g.integers(1, 7)); ts = np.sort(g.uniform(zi+1e-3*d, zf, n)); ent = []
        if g.random() < .4: ts = np.concatenate([[zi], ts])
        if g.random() < .3: ts = np.concatenate([[zi*.7, zi*.9], ts])
        if g.random() < .4 and n > 1: ts[-1] = ts[-2]+1e-3*d	# two within one step
        hdr = bool(g.random() < .6); cols = ["ct", "meas"]+(["map", "mask", "kgv"] if hdr else [])
        if hdr: cols = [cols[j] for j in g.permutation(len(cols))]
        txt = " ".join(cols)+"\n" if hdr else ""
        for t in ts:
            b = int(g.choice([-1, 1, 257, 4096, 4096 | 256 | 8, 65536, 65536 | 4096, 16384 | 256, 8 | 4096]))
            for rep_ in range(2 if g.random() < .2 and not hdr else 1):
                if rep_: b = 256 | 4
                e = dict(ct=float(np.float32("%.6f" % t)), meas=b, map=int(g.choice([0, 0, 5, 48])), mask=int(g.choice([1, 1, 0])), kgv=int(g.choice([0, 4]))); ent.append(e)
                txt += " ".join(("%.6f" % t) if k2 == "ct" else str(e[k2]) for k2 in cols)+"\n"
        c["mf"], c["ent"], c["hdr"] = txt, ent, hdr
    c["args"] = [str(x) for x in a]
    return c

def plan(c, samp):
    """expected measurements [(z, bits, entry or None)] and the z of every step, from the request and (for steps the program chooses itself) the z it printed"""
    co, zi, zf, bits = c["co"], c["zi"], c["zf"], c["bits"]; zs = [r[0] for r in samp]; exp = []; fin = bits
    ent = None
    if c["lst"]:
        ent = []
        for e in c["ent"]:
            e = dict(e, meas=bits if e["meas"] < 0 else e["meas"])
            if not c["hdr"]: e.update(map=0, mask=0, kgv=0)
            if e["ct"] < zi: continue
            if ent and ent[-1]["ct"] == e["ct"]: ent[-1]["meas"] |= e["meas"]
            else: ent.append(e)
        zf = c["zf"] = ent[-1]["ct"]
    exp.append((zi, bits | 262144 | (ent[0]["meas"] if ent else 0) | (4096 if c["p3D"] & 1 else 0), dict(first=1, e=ent[0] if ent else None)))
    im = 1 if ent and abs(1-zi/ent[0]["ct"]) < 1e-4 else 0
    dz0 = (zf-zi)/c["steps"]; z = zi; steps = [zi]; cur = bits; why = "steps exhausted"; cure = ent[0] if ent else None; amb = None
    for iz in range(c["steps"]):
        hit = None; dz = dz0 if not c["wdz"] else None
        if ent:
            while im < len(ent)-1 and z > ent[im]["ct"]: im += 1
            if c["wdz"]:	# the program's own step: known only from what it printed
                if iz+1 >= len(zs): return exp, steps, "short", cur, cure
                nz = zs[iz+1]
                if abs(nz-ent[im]["ct"]) < 2e-6: hit = ent[im]; nz = hit["ct"]
            elif abs(z+dz-zf) < 1e-9 and abs(ent[im]["ct"]-zf) < 1e-9: amb = (cur, cure); hit = ent[im]; nz = hit["ct"]	# rounding decides whether the program sees the last entry
            elif z+dz >= ent[im]["ct"] and z < ent[im]["ct"]: hit = ent[im]; nz = hit["ct"]
            else: nz = z+dz
            if hit: cur = hit["meas"]; cure = hit
        else:
            if c["wdz"]:
                if iz+1 >= len(zs): return exp, steps, "short", cur, cure
                nz = zs[iz+1]
            else: nz = z+dz
        z = nz; steps.append(z)
        if z >= zf-(2e-6 if c["wdz"] else 1e-10): why = "end"; break
        if ent and hit or not ent and iz % c["dump"] == 0:
            exp.append((z, cur, dict(e=cure, step=iz))); im += 1 if ent else 0
    exp.append((z, cur | (4096 if c["p3D"] & 2 else 0) | (512 if c["defp"] else 0) | (1024 if c["red"] else 0), dict(e=cure, final=1, amb=amb)))
    return exp, steps, why, cur, cure

def adopt(c, conf, z, bits, info, field):
    """what judge() of part A needs to know, with the field taken from the configuration written next to the measurement; None when the field sits too close to a discontinuity of what is measured"""
    import c10
    m, v = np.asarray(conf["/m"]), np.asarray(conf["/v"]); N = c["N"]; dt = cases.dtypes(c["prec"], field); co = c["co"]; R = co.R(z); e = info.get("e")
    m, v = (np.ascontiguousarray(x.view(dt) if x.dtype != dt else x).reshape(N, N, N) for x in (m, v))
    mp = 0 if not e else e["map"]
    d = dict(i=c["i"], prec=c["prec"], field=field, ranks=c["ranks"], threads=c["threads"], N=N, lz=c["lz"], Ng=c["Ng"], shape=(N, N, N), cub=True, co=co, z=z, R=R, delta=co.L/N, dt=dt, q=QCD1, pq=PQ1, mask=1,
             what="sax" if field == SAXION else "ax", sas=0., m=m, v=v, bits=bits, nrt=c["nrt"] | (e["kgv"] if e else 0), smask=1, slice=0, mxy=c["mxy"] or bool(mp & 5), myz=c["myz"] or bool(mp & 48), mE=False, mP=False, mP2=False,
             second=False, fold=0, args=c["args"], idx=-1)
    if c["red"]: d["red"] = c["red"]
    if field == SAXION:
        a = co.mA2(z)/co.lamP(z); q = np.roots([1, 0, -1, -a]); d["sas"] = (q[abs(q.imag) < 1e-9].real.max()-1)*R
        W, wall, marg = c10.oracle(m); t = np.angle(m.astype(complex)-d["sas"]); t0 = np.angle(m.astype(complex)); nd = max(np.abs(wrap(np.roll(t, -1, k)-t, 2*np.pi)).max() for k in range(3))
        d.update(W=W, wall=wall, marg=marg, nd=nd)
        dp = c["prec"] == 8
        if marg < (1e-9 if dp else 2e-5) or min(np.min(np.pi-np.abs(t)), np.min(np.pi-np.abs(t0))) < (1e-9 if dp else 1e-5): return None
    d["shf"] = d["sas"]
    return d

def schedule(rep, tier):
    import c16
    exe = prog.main_exe("vaxion3d"); n = {"quick": 36, "thorough": 500}[tier]; todo = []
    for c in (case(i, tier) for i in range(n)):
        p = prog.Prog(exe, c["args"], c["ranks"], c["threads"], c["N"], c["lz"], c["mf"]); p.c = c; todo.append(p)
        nk = int(np.sqrt(3)*c["N"]/2)+3; k = np.arange(nk); open(p.dir+"/initialspectrum.dat", "w").write("\n".join("%.17g %.17g" % (.3*np.exp(-x/3.)/(1+x), .1*np.exp(-x/3.)) for x in k))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        w = ex.submit(witness, rep, exe); prog.run_all(todo); w.result()
    for p in todo:
        one(rep, c16, p, p.c); p.clean()

def witness(rep, exe):
    """an axion mass that does not change with time (--qcd 0) and the fixed self coupling: the run has to start at all"""
    p = prog.Prog(exe, "--ctype smooth --sIter 2 --kmax 3 --lsize 8 --llcf 1 --ind3 0.3 --qcd 0 --frw 1 --zi 1 --zf 1.2 --steps 2 --dump 1 --prop rkn4 --ftype saxion --prec double --meas 4096 --notheta".split(), 1, 1, 16, 16, timeout=20)
    p.rc, p.log = fw.run_mpi([exe, "--size", "16", "--depth", "16", "--zgrid", "1", "--device", "cpu", "--verbose", "0"]+p.args, 1, 1, p.dir, p.env, 20)
    rep.true(p.rc == 0 and p.files("axion.") == [0, 1, 2], "schedule/constant-mass-hang", "vaxion3d with --qcd 0 ended with %s, configurations %s" % (p.rc, p.files("axion.")), p); rep.observe("constant mass", 1); p.clean()

def one(rep, c16, p, c):
    kind = ("list" if c["lst"] else "every")+("+theta" if c["theta"] else ""); key = "schedule/"+kind
    det = "case %d ranks=%d %s%s" % (c["i"], c["ranks"], " ".join(c["args"]), ("\n"+c["mf"]) if c["mf"] else "")
    if p.rc != 0:
        print(det); print("\n".join(l for l in p.log.split("\n") if l.strip())[-1200:])
        return rep.inconclusive("timeout "+det) if p.rc == "timeout" else rep.violation(key+"/crash", "the program ended with %s; %s" % (p.rc, det), p)
    samp = p.sample()
    if not rep.true(len(samp) > 1, key+"/sample", "no samples; "+det, p): return
    exp, zs, why, cur, cure = plan(c, samp); fld = {}
    if why == "short": rep.true(False, key+"/end", "the run stopped after %d steps at z=%.6f, requested end %.6f; %s" % (len(samp)-1, samp[-1][0], c["zf"], det), p); return
    rep.true(len(samp) == len(zs), key+"/steps", "%d steps taken, %d expected; %s" % (len(samp)-1, len(zs)-1, det), p)
    rep.true(all(abs(r[0]-z) < 1.1e-6 for r, z in zip(samp, zs)), key+"/step-times", det, p)
    exp = [(k, f) for k, f in enumerate(exp)]
    sax = [len(r) > 8 for r in samp]; tr = None
    if c["theta"]:
        last = max([k for k, x in enumerate(sax) if x], default=-1)
        if last < len(samp)-1: tr = last
        else:
            fs = p.files()
            if fs and str(h5.File(p.out+"/axion.m.%05d" % fs[-1], False).attrs.get("/@Field type", "")).strip() == "Axion": tr = last
        rep.count("theta transitions" if tr is not None else "theta runs without transition")
    full = []; done = tr is None
    for _, (z, b, info) in exp:
        st = info.get("step"); k = -1 if info.get("first") else (st+1 if st is not None else len(zs)-1)
        if not done and k >= tr:
            full.append((zs[tr], c["m2t"] | (4096 if c["p3D"] & 8 else 0), dict(e=None), SAXION)); full.append((zs[tr], c["m2t"] | (4096 if c["p3D"] & 16 else 0), dict(e=None), AXION)); done = True
        full.append((z, b, info, SAXION if c["field"] == SAXION and (tr is None or not done or (info.get("first"))) else AXION))
    if c.get("wkb"): full.append((c["wkb"], cur | (4096 if c["p3D"] & 4 else 0) | (1024 if c["red"] else 0), dict(e=cure, wkb=1), AXION))
    if c["lst"] and not c["wdz"] and why == "steps exhausted" and zs[-1] < c["zf"]-(c["zf"]-c["zi"])/c["steps"]:
        rep.true(False, "schedule/list/fixed-steps-end-early", "the step count ran out at z=%.6f although the list asks for %.6f; %s" % (zs[-1], c["zf"], det), p)
    if not c["lst"] or c["wdz"]:
        last = zs[-1]; dzl = zs[-1]-zs[-2] if len(zs) > 1 else 0
        rep.true(why == "steps exhausted" or c["zf"]-1e-5 <= last <= c["zf"]+dzl+1e-5, key+"/end", "ended at %.6f, requested %.6f; %s" % (last, c["zf"], det), p)
    if c["lst"]:	# every requested time that was passed has its measurement
        for e in c["ent"]:
            if c["zi"]*(1+1e-3) < e["ct"] < zs[-1]: rep.true(any(abs(f[0]-e["ct"]) < 1e-6 for f in full), key+"/missed", "no measurement at %.6f; %s" % (e["ct"], det), p)
    z, b, info, field = full[-1]
    if info.get("amb"):	# which of the two happened? the type of the last list entry is what was asked for
        b2 = info["amb"][0] | (b & 512 if c["defp"] else 0) | (4096 if c["p3D"] & 2 else 0) | (1024 if c["red"] else 0); k = len(full)-1; fm, fc = k in p.files(), k in p.files("axion.")
        def fits(bb, e):
            if bool(bb & ~4096) != fm or bool(bb & 4096) != fc: return False
            if not fm: return True
            F = h5.File(p.out+"/axion.m.%05d" % k, False)
            return all(bool(bb & bit) == (ds in F.dsets) for bit, ds in ((1, "/bins/thetaB/data"), (4, "/bins/logtheta2B/data"), (8, "/bins/contB/data"), (16384 | 1024 | 524288, "/pSpectrum/sP/data")))
        if not fits(b, info["e"]) and fits(b2, info["amb"][1]):
            rep.true(False, "schedule/list/last-entry-missed-by-rounding", "the last measurement is not of the type its list entry asks for; "+det, p); full[-1] = (z, b2, dict(info, e=info["amb"][1]), field)
    em = [k for k, f in enumerate(full) if f[1] & ~4096]; ec = [k for k, f in enumerate(full) if f[1] & 4096]
    gm, gc = p.files(), p.files("axion.")
    if not rep.true(gm == em, key+"/files", "measurement files %s, expected %s; %s" % (gm, em, det), p): return
    if not rep.true(gc == ec, key+"/configurations", "configurations %s, expected %s; %s" % (gc, ec, det), p): return
    for k, (z, b, info, field) in enumerate(full):
        F = h5.File(p.out+"/axion.m.%05d" % k) if k in em else None; conf = h5.File(p.out+"/axion.%05d" % k) if k in ec else None
        for nm, f in (("m", F), ("c", conf)):
            if f is None: continue
            tz = 1.2e-6 if c["wdz"] and not (info.get("e") and abs(info["e"]["ct"]-z) < 1e-9) and not info.get("first") and not info.get("wkb") else 1e-12*max(1, abs(z))
            rep.true(abs(f["/@z"]-z) <= tz, key+"/time", "file %d states z=%.12g, expected %.12g; %s" % (k, f["/@z"], z, det), p); rep.evals += 1
            rep.true(str(f.attrs.get("/@Field type", "")).strip() == ("Saxion" if field == SAXION else "Axion"), key+"/field-type", "file %d: %s; %s" % (k, f.attrs.get("/@Field type"), det), p)
        rep.observe((key, b, c["ranks"], bool(info.get("final"))), 1)
        if conf is None: continue
        z = float(conf["/@z"]); dt = cases.dtypes(c["prec"], field); m0 = np.ascontiguousarray(conf["/m"]).view(dt).reshape(-1)[0]
        if not info.get("wkb"):
            ks = [j for j, r in enumerate(samp) if abs(r[0]-z) < 1.1e-6 and len(r) > (8 if field == SAXION else 0)]
            if field == SAXION: ok = any(abs(samp[j][4]-m0.real) < 1.1e-6*max(1, abs(m0)) and abs(samp[j][5]-m0.imag) < 1.1e-6*max(1, abs(m0)) for j in ks)
            else: ok = any(len(samp[j]) < 8 and abs(samp[j][3]-m0) < 1.1e-6*max(1, abs(m0)) for j in ks) or (info.get("e") is None and tr is not None and abs(z-zs[tr]) < 1e-5)
            rep.true(ok, key+"/state", "file %d: the field at site 0 is %s, the samples at z=%.6f say %s; %s" % (k, m0, z, [samp[j][3:7] for j in ks], det), p)
        if F is None: continue
        d = adopt(c, conf, z, b, info, field)
        if d is None: rep.count("configurations next to a discontinuity"); continue
        d["args"] = c["args"]+["file %d" % k]; c16.judge(rep, d, p, F, conf, k); rep.count("files of runs recomputed from their configuration")
