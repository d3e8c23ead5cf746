"""C09: every reported energy component, masked mean and map value against the density of the stored field, site by site."""
import numpy as np
import ref, cases, fw, build
from ref import *
from c02 import cosmo

NAME = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod", PAXION: "paxion"}
ENE, MAP, MASK, ENEMASK, MAPMASK, ENEMAPMASK = 1, 3, 4, 5, 6, 7
SD_MASK = 4; STRING_MASK = 128

def case(i, tier):
    g = fw.rng("C09", i, tier)
    field = [SAXION, AXION, PAXION, AXION_MOD, SAXION][i % 5]; prec = int([8, 4][(i//5) % 2]); sh = cases.shift(prec, field)
    ranks, threads = [(1, 1), (2, 3), (3, 2), (4, 1)][int(g.integers(0, 4))]
    Ng = int(g.choice([1, 2, 3])); N = int(sh*g.choice([3, 4, 6, 8])) if sh > 2 else int(g.choice([8, 16, 20, 32])); N = max(N, 8)
    if N % sh: N += sh - N % sh
    lz = int(g.integers(Ng, 7))
    while N*N*Ng < lz*N: Ng += 1
    tz = lz*ranks; shape = (tz, N, N)
    q = int(g.choice([QCD0, QCD1, QCDV, QCD2, QCDC], p=[.2]*5)) if field == SAXION else QCD1
    pq = int(g.choice([PQ1, PQ2])) if field == SAXION else PQ1
    co, z, delta = cosmo(g, q | pq, N)
    if q == QCD0: co.indi3 = 0.
    R = co.R(z); dt = cases.dtypes(prec, field)
    if field == SAXION:
        m = cases.saxion_field(g, shape, R, str(g.choice(["rough", "ring", "vacuum", "smooth"])))
        m = np.where(np.abs(m) < 1e-2*R, 1e-2*R, m)
        v = R*g.uniform(.1, 3)*(g.normal(size=shape)+1j*g.normal(size=shape))
    elif field == PAXION: m, v = g.normal(size=shape), g.normal(size=shape)
    else:
        m = cases.axion_field(g, shape, R, str(g.choice(["rough", "smooth", "tiny", "cluster"]))); v = R*g.uniform(.1, 3)*g.normal(size=shape)
        if field == AXION_MOD: m = wrap(m, 2*np.pi*R)
    emap = int(g.choice([ENE, MAP, MASK, ENEMASK, MAPMASK, ENEMAPMASK])) if field == SAXION else int(g.choice([ENE, MAP]))
    mask = (g.random(shape) < g.choice([0.003, 0.1, 0.7])) | (g.random(shape) < 0.0)
    if not mask.any(): mask[0, 0, 0] = True
    st = np.where(mask, STRING_MASK, 0).astype(np.uint8) | g.integers(0, 128, shape).astype(np.uint8)
    shf = float(g.choice([0., 0., 0.15]))*R if field == SAXION else 0.
    return dict(g=g, i=i, field=field, prec=prec, ranks=ranks, threads=threads, Ng=Ng, N=N, lz=lz, q=q, pq=pq, co=co, z=z, delta=delta, R=R, dt=dt,
                m=m.astype(dt), v=v.astype(dt), emap=emap, mask=mask, st=st, shf=shf, shape=shape, fold=int(g.integers(0, 2)))

def dens(c):
    """component densities of the stored field and the magnitude of the terms they are computed from"""
    co, z, R, d = c["co"], c["z"], c["R"], c["delta"]; mA2 = co.mA2(z); f = c["field"]
    m = c["m"].astype(np.complex128 if f == SAXION else np.float64); v = c["v"].astype(m.dtype); D = {}; S = {}
    if f == SAXION:
        r2 = np.abs(m)**2; mod = r2/R**2; o2 = 0.25/d**2/R**2
        for ax, nm in ((2, "X"), (1, "Y"), (0, "Z")):
            p, q = (np.roll(m, -1, ax)-m)/m, (m-np.roll(m, 1, ax))/m
            s = o2*(np.abs(np.roll(m, -1, ax))**2+np.abs(np.roll(m, 1, ax))**2+2*r2)/R**2
            D["RHG"+nm] = mod*(p.real**2+q.real**2)*o2; D["THG"+nm] = mod*(p.imag**2+q.imag**2)*o2; S["RHG"+nm] = S["THG"+nm] = s
        w = v/m; Rp = co.Rp(z)
        D["RHK"] = 0.5/R**2*mod*(w.real-Rp)**2; D["THK"] = 0.5/R**2*mod*w.imag**2; S["RHK"] = S["THK"] = 0.5/R**4*(np.abs(v)+np.abs(m)*abs(Rp))**2
        n = m - c["shf"]; n2 = np.abs(n)**2; x = n2/R**2; lam = co.lamP(z)
        if c["pq"] == PQ1: D["RHV"] = 0.25*lam*(x-1)**2; S["RHV"] = 0.25*lam*(x+1)**2
        else: D["RHV"] = 0.25*lam*(x*x-1)**2; S["RHV"] = 0.25*lam*(x*x+1)**2
        q = c["q"]
        if q in (QCD1, QCDC): th = 1-n.real/np.abs(n)
        elif q == QCDV: th = 0.5*np.abs(1-n/R)**2
        elif q == QCD2: th = 0.5*(1-n.real**2/n2)
        else: th = 0*x
        D["THV"] = mA2*th; S["THV"] = mA2*(1.+(x if q == QCDV else 0*x)); D["RHO"] = np.sqrt(x); S["RHO"] = D["RHO"]+abs(c["shf"])/R
    elif f in (AXION, AXION_MOD):
        P = 2*np.pi*R; o2 = 0.25/d**2/R**4; W = (lambda a: wrap(a, P)) if f == AXION_MOD else (lambda a: a)
        for ax, nm in ((2, "X"), (1, "Y"), (0, "Z")):
            a, b = W(np.roll(m, -1, ax)-m), W(np.roll(m, 1, ax)-m)
            D["THG"+nm] = o2*(a*a+b*b); S["THG"+nm] = o2*((np.abs(a)+np.abs(m)+np.abs(np.roll(m, -1, ax)))**2+(np.abs(b)+np.abs(m)+np.abs(np.roll(m, 1, ax)))**2)
        D["THK"] = 0.5/R**4*(v-co.Rp(z)*m)**2; S["THK"] = 0.5/R**4*(np.abs(v)+np.abs(co.Rp(z)*m))**2
        D["THV"] = mA2*(1-np.cos(m/R)); S["THV"] = mA2*(1+np.abs(m)/R)
    else:
        o2 = 0.25/d**2/np.sqrt(mA2)/R**5
        for ax, nm in ((2, "X"), (1, "Y"), (0, "Z")):
            t = 0; s = 0
            for u in (m, v):
                for k in (1, -1): t = t+(np.roll(u, k, ax)-u)**2; s = s+np.abs(np.roll(u, k, ax))**2+u**2
            D["THG"+nm] = o2*t; S["THG"+nm] = 2*o2*s
        n = m*m+v*v; D["THK"] = n; S["THK"] = n; D["THV"] = -n*n/16/R**6; S["THV"] = n*n/16/R**6
    return D, S

IDX = dict(THGX=0, THGY=1, THGZ=2, THK=3, THV=4, RHGX=5, RHGY=6, RHGZ=7, RHK=8, RHV=9, RHO=10)

def main(tier):
    rep = fw.Report("C09", tier, "one evaluation = one site of an energy map, or one site entering a reported mean, compared with the density computed from the stored field in double precision; distinct = (field, precision, potential, map type, decomposition)")
    exe = build.build()["drv"]; n = {"quick": 200, "thorough": 4000}[tier]
    cs = [case(i, tier) for i in range(n)]; todo = []
    by = {}
    for c in cs: by.setdefault((c["ranks"], c["threads"]), []).append(c)
    for (ranks, threads), l in by.items():
        for part in [l[k:k+8] for k in range(0, len(l), 8)]:
            s = fw.Session(exe, ranks, threads); todo.append((s, part))
            for c in part:
                for k in c["co"].cmds(): s.cmd(*k)
                s.cmd("new", c["prec"], c["N"], c["lz"], c["field"], 0, c["Ng"], 0, c["z"]); s.load("m", c["m"]); s.load("v", c["v"])
                if c["field"] == SAXION: s.load("str", c["st"]); s.cmd("setsd", SD_MASK)
                s.cmd("poison", "nan", 1)
                if c["fold"]: s.cmd("fold")
                c["h"] = s.cmd("energy", c["emap"], repr(c["shf"])); rdt = cases.dtypes(c["prec"], AXION)
                c["mt"] = s.dump("m2r", rdt, c["shape"]); c["mr"] = s.dump("m2h", rdt, c["shape"])
                s.cmd("unfold"); c["hm"] = s.dump("m", c["dt"], c["shape"]); c["hv"] = s.dump("v", c["dt"], c["shape"]); s.cmd("del")
    fw.run_all([t[0] for t in todo])
    for s, part in todo:
        if s.err: rep.session_error(s.err, "energy", s); s.clean(); continue
        for c in part:
            f = c["field"]; em = c["emap"]; dp = c["prec"] == 8
            key = "%s/%s" % (NAME[f], "double" if dp else "single")
            det = "case %d pot=%d emap=%d N=%d lz=%d Ng=%d ranks=%d threads=%d shift=%g folded=%d R=%g" % (c["i"], c["co"].pot, em, c["N"], c["lz"], c["Ng"], c["ranks"], c["threads"], c["shf"], c["fold"], c["R"])
            D, S = dens(c); e = s.at(c["h"])["e"]; tol = 3e-13 if dp else 2e-6
            rep.true(s.get(c["hm"]).tobytes() == c["m"].tobytes() and s.get(c["hv"]).tobytes() == c["v"].tobytes(), key+"/field-changed", det, s)
            if em & 1:
                for k, d in D.items():
                    rep.close(e[IDX[k]], d.mean(), tol, "%s/%s" % (key, k), det, s, scale=max(S[k].mean(), 1e-300))
                rep.evals += c["m"].size*len(D)
            if em & 4:
                M = c["mask"]; rep.close(e[22], float(M.sum()), 1e-12, key+"/mask-size", det, s)
                for k, d in D.items():
                    rep.close(e[IDX[k]+11], d[M].mean(), tol, "%s/masked-%s" % (key, k), det, s, scale=max(S[k][M].mean(), 1e-300))
                rep.evals += int(M.sum())*len(D)
            if em & 2:
                for h, pre in ((c["mt"], "TH"), (c["mr"], "RH")):
                    if f == PAXION: w = D["THK"] if pre == "TH" else D["THGX"]+D["THGY"]+D["THGZ"]+D["THV"]; sc = S["THK"] if pre == "TH" else S["THGX"]+S["THGY"]+S["THGZ"]+S["THV"]
                    elif pre == "RH" and f != SAXION: continue
                    else:
                        ks = [k for k in D if k.startswith(pre) and k != "RHO"]; w = sum(D[k] for k in ks); sc = sum(S[k] for k in ks)
                    if em == MAPMASK: w = w*c["mask"]; sc = sc*c["mask"]+1e-30
                    a = s.get(h)
                    bad = ~(np.abs(a-w) <= 4*tol*np.maximum(sc, 1e-300))
                    rep.true(not bad.any(), "%s/map-%s" % (key, pre), "%d of %d sites of the %s map differ; %s" % (int(bad.sum()), bad.size, pre, det), s)
                    if f != PAXION: rep.true(not (a < 0).any(), "%s/map-negative-%s" % (key, pre), det, s)
                    rep.evals += w.size
            rep.observe((key, c["co"].pot, em, c["ranks"], c["threads"], c["fold"]), 1); rep.count("maps" if em & 2 else "sums")
        s.clean()
    return rep.finish(100000)
