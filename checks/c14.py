"""C14: what is written can be read back bit for bit, by any number of ranks, with the parameters of the run."""
import os
import numpy as np
import cases, fw, build, h5
from ref import *

FN = {SAXION: "complex", AXION: "theta", AXION_MOD: "theta mod", PAXION: "paxion"}
FT = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionmod", PAXION: "Paxion"}
FA = {SAXION: "Saxion", AXION: "Axion", AXION_MOD: "Axion Mod", PAXION: "Paxion"}
QN = {QCD0: "VQcd 0", QCD1: "VQcd 1", QCDV: "VQcd Variant", QCDL: "VQcd Linear", QCDC: "VQcd Cos", QCD2: "VQcd N = 2"}
PN = {PQ1: "VPQ 1", PQ2: "VPQ 2", PQ3: "VPQ 3"}
DN = {0: "None", DAMP_RHO: "Rho", DAMP_ALL: "All"}
EN = {0: "Full", EVOL_THETA: "Only Theta", EVOL_RHO: "Only Rho"}
PARAMS = ["L", "lambda", "lz2e", "indi3", "gamma", "nqcd", "nqcdr", "pot", "frw", "zth", "zre"]

def bits(a):
    a = np.ascontiguousarray(a); return a.view({4: np.uint32, 8: np.uint64}[a.dtype.itemsize if a.dtype.kind == "f" else a.dtype.itemsize//2])

def values(g, shape, dt, kind):
    rt = np.float64 if dt in (np.float64, np.complex128) else np.float32; n = int(np.prod(shape))*(2 if np.dtype(dt).kind == "c" else 1)
    if kind == "normal": a = g.normal(size=n)
    elif kind == "index": a = np.arange(n)+.5*(g.random()+1)	# every site its own value
    elif kind == "wide": a = g.choice([-1., 1.], n)*10.**g.uniform(-30, 30, n)
    else:	# any finite bit pattern
        u = g.integers(0, 2**63, n, dtype=np.uint64)*np.uint64(2)+g.integers(0, 2, n, dtype=np.uint64) if rt == np.float64 else g.integers(0, 2**32, n, dtype=np.uint64).astype(np.uint32)
        a = u.view(rt); a = np.where(np.isfinite(a), a, rt(0))
    a = a.astype(rt)
    for v in (0., -0., np.finfo(rt).tiny, np.finfo(rt).tiny/8, np.finfo(rt).max): a[g.integers(0, n)] = v
    return a.view(dt).reshape(shape)

def fac(n): return [r for r in (1, 2, 3, 4) if n % r == 0]

def case(i, tier):
    g = fw.rng("C14", i, tier); c = dict(i=i, g=g); field = [SAXION, AXION, SAXION, AXION_MOD, PAXION][i % 5]; prec = [8, 4][(i//5) % 2]; sh = cases.shift(prec, field)
    mode = ["same", "other precision", "file precision", "restart", "resave", "override"][int(g.integers(0, 6))] if i >= 12 else ["same", "other precision", "file precision", "restart", "resave", "override"][i % 6]
    N = int(g.choice([8, 16, 24, 32] if sh >= 4 else [4, 6, 8, 12, 16, 24])); N -= N % sh; N = max(N, 2*sh if sh*2 <= 16 else sh)
    tz = int(g.choice([8, 12, 16, 24])); r1, r2 = [int(g.choice(fac(tz//4))) for _ in (0, 1)]
    while N/sh < 2: N += sh
    for k in fac(tz//4):
        if g.random() < .4: r2 = k
    c.update(field=field, prec=prec, mode=mode, N=N, tz=tz, r1=r1, r2=r2, Ng=1 if N//sh < 4 or tz//r1 < 4 else int(g.integers(1, 3)), fold=bool(g.random() < .5), threads=int(g.integers(1, 4)))
    c["Ng2"] = 1 if N//sh < 4 or tz//r2 < 4 else int(g.integers(1, 3))
    frw = float(g.choice([1., 0., 2., .5, g.uniform(.2, 3)])); z = float(np.exp(g.uniform(-2, 3))); R = z**frw
    q = int(g.choice([QCD0, QCD1, QCDV, QCDL, QCDC, QCD2])); p = int(g.choice([PQ1, PQ2, PQ3])); d = int(g.choice([0, DAMP_RHO, DAMP_ALL])); e = int(g.choice([0, 0, EVOL_THETA, EVOL_RHO]))
    lt = int(g.integers(0, 2)); zth = R*float(np.exp(g.uniform(-1, 1))); zre = zth*float(np.exp(g.uniform(-.5, 1)))
    c["co"] = Cosmo(L=float(g.uniform(.5, 50)), lam=float(np.exp(g.uniform(-2, 10))), lz2e=float(g.choice([2., g.uniform(.1, 3)])) if lt else 0., indi3=float(g.uniform(.1, 5)), gamma=float(g.uniform(.01, 3)) if d else 0.,
        nqcd=float(g.choice([0., 7., g.uniform(0, 8)])), nqcdr=float(g.uniform(0, 8)), pot=q | p | d | e, frw=frw, zth=zth, zre=zre)
    c.update(q=q, p=p, d=d, e=e, lt=lt, z=z, R=R, kind=str(g.choice(["normal", "index", "wide", "bits"])), idx=int(g.choice([0, 1, 7, 123, 99999, g.integers(0, 99999)])), dump=int(g.integers(1, 50)), steps=int(g.integers(1, 5000)), zf=float(z*g.uniform(1, 4)), mode0=float(g.uniform(-3, 3)))
    return c

def convert(rep, exe, n, tier):
    from c02 import cosmo
    """files of one representation read as the other"""
    import c11
    first, second = [], []
    for i in range(n):
        g = fw.rng("C14c", i, tier); src = [SAXION, AXION][i % 2]; dst = AXION if src == SAXION else SAXION; prec = [8, 4][(i//2) % 2]; N = int(g.choice([16, 24, 32])); tz = int(g.choice([8, 12, 16])); r1, r2 = [int(g.choice([1, 2, 4])) for _ in (0, 1)]
        frw = float(g.choice([1., 2., .5, 0.])); z = float(g.uniform(.4, 4)); R = z**frw; Rp = frw/z; shape = (tz, N, N); co = Cosmo(L=float(g.uniform(1, 9)), pot=QCD0 | PQ1, frw=frw); dt = cases.dtypes(prec, src); rt = np.float64 if prec == 8 else np.float32
        sas = 0.; t = 0.
        if src == SAXION and g.random() < .7:		# tilted potential: angles are measured from the shifted centre
            co, z, t = cosmo(g, QCD1 | PQ1, N); frw = co.frw; R = co.R(z); Rp = co.Rp(z); q = np.roots([1, 0, -1, -co.mA2(z)/co.lamP(z)]); sas = (q[abs(q.imag) < 1e-9].real.max()-1)*R
        th = c11.angle(g, shape, False); pv = g.normal(size=shape); rho = g.uniform(.4, 1.6, shape)
        if src == SAXION: m = (sas+R*rho*np.exp(1j*th)).astype(dt); v = (g.normal(size=shape)+1j*g.normal(size=shape)).astype(dt)
        else: m = (R*th).astype(dt); v = (R*pv+R*Rp*th).astype(dt)
        a = fw.Session(exe, r1, 2, N=N, Lz=tz//r1, prec={8: "double", 4: "single"}[prec])
        for k in co.cmds(): a.cmd(*k)
        if frw == 0: a.cmd("set", "mink", 1)
        a.cmd("new", prec, N, tz//r1, src, int(co.lz2e > 0), 1, 0, z); a.load("m", m); a.load("v", v); a.cmd("write", 3); first.append((a, dict(m=m, v=v, src=src, dst=dst, R=R, Rp=Rp, co=co, rt=rt, shape=shape, i=i, r=(r1, r2), prec=prec, frw=frw, z=z, th=th, sas=sas)))
    fw.run_all([t[0] for t in first])
    for a, c in first:
        b = fw.Session(exe, c["r"][1], 2, N=c["shape"][1], Lz=c["shape"][0]//c["r"][1], prec={8: "double", 4: "single"}[c["prec"]], args=["--ftype", FT[c["dst"]], "--index", "3"], env={"AXIONS_OUTPUT": os.path.join(a.dir, "out", "m")})
        b.cmd("read", 3); c["ib"] = b.cmd("info"); b.cmd("unfold"); dt = cases.dtypes(c["prec"], c["dst"]); c["h"] = b.dump("m", dt, c["shape"]), b.dump("v", dt, c["shape"]); second.append((a, b, c))
    fw.run_all([b for a, b, c in second if not a.err])
    for a, b, c in second:
        key = "read %s as %s/%s" % (FN[c["src"]], FN[c["dst"]], "double" if c["prec"] == 8 else "single"); det = "case %d ranks %s lattice %s frw %g z %g centre %g nqcd %g %g zth %g zre %g lz2e %g" % (c["i"], c["r"], c["shape"], c["frw"], c["z"], c["sas"]/c["R"], c["co"].nqcd, c["co"].nqcdr, c["co"].zth, c["co"].zre, c["co"].lz2e)
        if a.err: rep.session_error(a.err, key+"/write", a); a.clean(); continue
        if b.err: rep.session_error(b.err, key+"/read", b); a.clean(); b.clean(); continue
        R, Rp, th = c["R"], c["Rp"], c["th"]; ib = b.at(c["ib"]); m0 = c["m"].astype(np.complex128 if c["src"] == SAXION else float); v0 = c["v"].astype(m0.dtype); gm, gv = [b.get(h) for h in c["h"]]; eps = np.finfo(c["rt"]).eps; amp = np.abs(th).max()+4
        rep.true(ib["field"] == c["dst"], key+"/field type", det, b); rep.true(ib["z"] == c["z"], key+"/time", det, b)
        if c["src"] == AXION:
            q = m0/R; pv = (v0-R*Rp*q)/R; e = np.exp(1j*q); rep.close(gm, R*e, 30*eps*amp, key+"/m", det, b, scale=R); rep.close(gv, (R*Rp+1j*R*pv)*e, 60*eps*amp, key+"/v", det, b, scale=R*np.abs(pv).max()+R*Rp*amp)
        else:
            m0 = m0-c["sas"]; ph = np.angle(m0); pv = (v0*np.conj(m0)).imag/np.abs(m0)**2; kk = (gm.astype(float)/R-ph)/(2*np.pi); rep.close(2*np.pi*(kk-np.round(kk)), 0*kk, 60*eps*amp, key+"/m", det, b, scale=1.)
            rep.close(gv, R*pv+R*Rp*gm.astype(float)/R, 60*eps*amp, key+"/v", det, b, scale=np.abs(R*pv).max()+R*Rp*amp)
        rep.observe((key, c["r"], c["frw"]), gm.size*2); a.clean(); b.clean()

def main(tier):
    rep = fw.Report("C14", tier, "evaluation = one stored value or parameter compared: array left in memory, datasets and attributes in the file, arrays and parameters after reading; distinct = (field, precision, mode, values, storage order, ranks, potential)"); exe = build.build()["drv"]; build.tool("h5x"); first, second = [], []
    n = 60 if tier == "quick" else 600
    for i in range(n):
        c = case(i, tier); g = c["g"]; co = c["co"]; pr = {8: "double", 4: "single"}[c["prec"]]; dt = cases.dtypes(c["prec"], c["field"]); shape = (c["tz"], c["N"], c["N"])
        c["m"], c["v"] = values(g, shape, dt, c["kind"]), values(g, shape, dt, c["kind"])
        if c["field"] == SAXION and c["kind"] == "bits": c["m"].real[np.abs(c["m"].real) < 1e-30] = 1
        a = fw.Session(exe, c["r1"], c["threads"], N=c["N"], Lz=c["tz"]//c["r1"], prec=pr, args=["--dump", str(c["dump"]), "--steps", str(c["steps"]), "--zf", repr(c["zf"]), "--mode0", repr(c["mode0"])])
        for k in co.cmds(): a.cmd(*k)
        if co.frw == 0.: a.cmd("set", "mink", 1)
        a.cmd("new", c["prec"], c["N"], c["tz"]//c["r1"], c["field"], c["lt"], c["Ng"], 0, c["z"]); a.load("m", c["m"]); a.load("v", c["v"])
        c["other"] = (c["idx"]+1+int(g.integers(0, 9))) % 100000
        if c["fold"]: a.cmd("fold")
        if g.random() < .3: a.cmd("write", c["other"])	# an earlier snapshot of other contents
        if c["mode"] == "restart": a.cmd("write", c["idx"], 1)
        else: a.cmd("write", c["idx"])
        c["ia"] = a.cmd("info")
        if c["fold"]: a.cmd("unfold")
        c["ham"], c["hav"] = a.dump("m", dt, shape), a.dump("v", dt, shape)
        if c["mode"] != "restart": a.load("m", c["m"][::-1]); a.cmd("z", c["z"]*1.5); a.cmd("write", c["other"])	# a later one must not disturb it
        first.append((a, c))
    fw.run_all([t[0] for t in first])
    for a, c in first:
        if a.err: continue
        g, co = c["g"], c["co"]; pb = {8: "double", 4: "single"}[c["prec"] if c["mode"] != "other precision" else 12-c["prec"]]
        if c["mode"] == "file precision": pb = None
        args = ["--ftype", FT[c["field"]], "--lap", str(c["Ng2"])]
        if c["mode"] == "restart": args += ["--restart", "--lsize", repr(co.L)]
        else: args += ["--index", str(c["idx"])]
        c["ov"] = {}
        if c["mode"] == "override":
            for k, o in (("L", "--lsize"), ("indi3", "--ind3"), ("nqcd", "--qcd"), ("frw", "--frw"), ("zf", "--zf"), ("gamma", "--gam")):
                if g.random() < .4: x = float(np.round(g.uniform(.5, 9), 3)); c["ov"][k] = x; args += [o, repr(x)]
        b = fw.Session(exe, c["r2"], c["threads"], N=c["N"], Lz=c["tz"]//c["r2"], prec=pb, args=args, env={"AXIONS_OUTPUT": os.path.join(a.dir, "out", "m")})
        b.cmd(*(["read", 0, 1] if c["mode"] == "restart" else ["read", c["idx"]])); c["ib"] = b.cmd("info"); c["pb"] = b.cmd("params")
        dtb = cases.dtypes(c["prec"] if c["mode"] != "other precision" else 12-c["prec"], c["field"]); shape = (c["tz"], c["N"], c["N"])
        c["hbm"], c["hbv"] = b.dump("m", dtb, shape), b.dump("v", dtb, shape); c["dtb"] = dtb
        if c["mode"] == "resave":
            if g.random() < .5: b.cmd("fold")
            c["re"] = (c["idx"]+17) % 100000; b.cmd("write", c["re"])
        second.append((b, c, a))
    fw.run_all([t[0] for t in second])
    done = {id(t[1]): t[0] for t in second}
    for a, c in first:
        co = c["co"]; key = "%s/%s" % (FN[c["field"]], "double" if c["prec"] == 8 else "single"); shape = (c["tz"], c["N"], c["N"]); dt = cases.dtypes(c["prec"], c["field"])
        det = "case %d %s lattice %dx%dx%d written by %d ranks%s (Ng=%d), read by %d (Ng=%d), values %s, potential %d frw %g z %g index %d%s" % (c["i"], c["mode"], c["N"], c["N"], c["tz"], c["r1"], " folded" if c["fold"] else "", c["Ng"], c["r2"], c["Ng2"], c["kind"], co.pot, co.frw, c["z"], c["idx"], " lambda type %d" % c["lt"])
        if a.err: rep.session_error(a.err, key+"/write", a); a.clean(); continue
        same = lambda got, want, k, d: rep.true(bool(np.array_equal(bits(got), bits(want))), key+"/"+k, "%d of %d values differ; %s" % (int((bits(got) != bits(want)).sum()), got.size, d), a)
        # writing leaves the values as they were (it may leave the field unfolded)

        same(a.get(c["ham"]), c["m"], "writing changed the field", det); same(a.get(c["hav"]), c["v"], "writing changed the velocity", det)
        # the file itself
        fn = os.path.join(a.dir, "out", "m", "axion.restart" if c["mode"] == "restart" else "axion.%05d" % c["idx"])
        try: f = h5.File(fn)
        except IOError as e: rep.violation(key+"/file", "%s; %s" % (e, det), a); a.clean(); continue
        for nm in ("m", "v"):
            x = f.get("/"+nm)
            if x is None or x.size*x.itemsize != c[nm].nbytes or x.dtype.itemsize != c["prec"]: rep.violation(key+"/file/"+nm, "dataset missing or of another size; "+det, a); continue
            same(x.view(dt).reshape(shape), c[nm], "file/"+nm, det)
        want = {"/@Field type": FA[c["field"]], "/@Precision": {8: "Double", 4: "Single"}[c["prec"]], "/@Size": c["N"], "/@Depth": c["tz"], "/@Physical size": co.L, "/@z": c["z"], "/@R": None, "/@Frw": co.frw, "/@nSteps": c["steps"], "/@zFinal": c["zf"],
            "/potential@Lambda": co.lam, "/potential@Lambda Z2 exponent": co.lz2e, "/potential@Lambda type": "z2" if c["lt"] else "Fixed", "/potential@VQcd type": QN[c["q"]], "/potential@VPQ type": PN[c["p"]], "/potential@Damping type": DN[c["d"]],
            "/potential@Evolution type": EN[c["e"]], "/potential@nQcd": co.nqcd, "/potential@nQcd2": co.nqcdr, "/potential@Gamma": co.gamma, "/potential@Indi3": co.indi3, "/potential@z Threshold": co.zth, "/potential@z Restore": co.zre, "/ic@Axion zero mode": c["mode0"]}
        if c["mode"] == "restart": want["/@index"] = c["idx"]
        else: want["/@Current step"] = (c["dump"]*c["idx"])
        for k, w in want.items():
            got = f.get(k)
            if k == "/@R": rep.close(np.array(got), np.array(c["R"]), 1e-14, key+"/attribute R", det, a)
            else: rep.true(got == w, key+"/attribute "+k.split("@")[1], "the file says %r, the run used %r; %s" % (got, w, det), a)
        rep.close(np.array(f["/@Axion mass"]), np.array(np.sqrt(co.mA2(c["z"]))), 1e-13, key+"/attribute Axion mass", det, a)
        rep.observe((key, c["mode"], c["kind"], c["fold"], c["r1"], c["Ng"]), c["m"].size*4+len(want))
        # the reader
        b = done[id(c)]; key2 = key+"/"+c["mode"]
        if b.err: rep.session_error(b.err, key2+"/read", b); b.clean(); a.clean(); continue
        ib, pb = b.at(c["ib"]), b.at(c["pb"])
        ov = c["ov"]; frw = ov.get("frw", co.frw); R = c["z"]**frw
        wi = {"z": c["z"], "field": c["field"], "n1": c["N"], "tz": c["tz"], "prec": c["prec"] if c["mode"] != "other precision" else 12-c["prec"], "folded": 0, "L": ov.get("L", co.L), "lambdaT": c["lt"]}
        if c["mode"] == "restart": wi.pop("lambdaT")	# a restarted run takes these from its own command line
        for k, w in wi.items(): rep.true(ib[k] == w, "%s/read back/%s" % (key2, k), "read %r, written %r; %s" % (ib[k], w, det), b)
        rep.close(np.array(ib["R"]), np.array(R), 1e-14, key2+"/read back/R", det, b)
        if c["mode"] == "restart": rep.true(pb["fIndex"] == c["idx"], key2+"/read back/index", "measurements go on from %r, the file said %d; %s" % (pb["fIndex"], c["idx"], det), b)
        else:
            wp = {"L": co.L, "lambda": co.lam, "lz2e": co.lz2e, "indi3": co.indi3, "gamma": co.gamma, "nqcd": co.nqcd, "nqcdr": co.nqcdr, "pot": co.pot, "frw": co.frw, "zth": co.zth, "zre": co.zre, "mink": int(frw == 0.), "zFinl": c["zf"], "mode0": c["mode0"]}
            for k, x in ov.items(): wp[{"zf": "zFinl"}.get(k, k)] = x
            if "gamma" in ov: wp.pop("pot")	# the option also switches the kind of damping
            if "nqcd" in ov: wp.pop("nqcdr")
            for k, w in wp.items(): rep.true(pb[k] == w, "%s/read back/%s" % (key2, k), "%r after reading, %r expected; given on the command line: %s; %s" % (pb[k], w, ov, det), b)
        with np.errstate(over="ignore", under="ignore"):
            for nm in ("m", "v"):
                rt = {8: np.float64, 4: np.float32}[wi["prec"]]; src = c[nm].view({8: np.float64, 4: np.float32}[c["prec"]]); w = src.astype(rt); got = b.get(c["hb"+nm]).view(rt)
                if c["mode"] == "other precision" and rt == np.float32:	# what does not fit is converted by the library's own rules
                    ok = np.abs(src) <= np.finfo(rt).max; w, got = w[ok], got[ok]
                bad = bits(got) != bits(w)
                rep.true(not bad.any(), "%s/%s" % (key2, nm), "%d of %d values differ after reading; %s" % (int(bad.sum()), bad.size, det), b)
        rep.observe((key2, c["kind"], c["r1"], c["r2"], c["Ng2"], c["q"], c["p"], c["d"], c["e"]), c["m"].size*2)
        if c["mode"] == "resave":
            try: f2 = h5.File(os.path.join(a.dir, "out", "m", "axion.%05d" % c["re"]))
            except IOError as e: rep.violation(key2+"/file", "%s; %s" % (e, det), b); f2 = None
            if f2:
                for nm in ("m", "v"):
                    x = f2.get("/"+nm); rep.true(x is not None and x.shape == f["/"+nm].shape and bool(np.array_equal(bits(x), bits(f["/"+nm]))), "%s/second file/%s" % (key2, nm), det, b)
                for k, w in f.attrs.items():
                    if k.split("@")[1] in ("Current step", "nSteps", "zInitial"): continue
                    rep.true(f2.get(k) == w, "%s/second file/%s" % (key2, k), "%r, the file it came from says %r; %s" % (f2.get(k), w, det), b)
        b.clean(); a.clean()
    convert(rep, exe, 32 if tier == "quick" else 160, tier)
    return rep.finish(20000)
