"""C18: Newtonian potential; runtime monitor: every computed potential against the spectral solution of the periodic Poisson equation for the density of the stored field (residual on every mode), repeated densities in one process."""
import numpy as np
import ref, cases, fw, build, c04, c09
from ref import *

def gen(i, tier):
    g = fw.rng("C18", i, tier); prec = int([8, 4][i % 2]); field = PAXION; hyb = i % 6 == 3
    Ng = 1 if hyb else 1+(i//2) % 4; sh = cases.shift(prec, AXION); ranks = int(g.choice([1, 2, 4]))
    N = int(g.choice([n for n in (16, 24, 32, 40, 48) if n % sh == 0 and n % (4*ranks) == 0])) if not hyb else 32
    while N*N*Ng < 1: Ng -= 1
    lz = int(g.choice([N//ranks, max(2, Ng+Ng % 2), Ng+Ng % 2+4])); lz += lz % 2
    if hyb: lz = N//ranks
    co = Cosmo(L=float(np.exp(g.uniform(-1, 4))), pot=QCD1 | PQ1); co.grav = float(g.uniform(.01, 1)); co.indi3 = float(np.exp(g.uniform(-1, 2)))
    return dict(g=g, i=i, prec=prec, field=field, hyb=hyb, Ng=Ng, N=N, lz=lz, ranks=ranks, shape=(lz*ranks, N, N), co=co, z=float(g.uniform(1, 4)), delta=co.L/N, pq=PQ1, q=QCD1, shf=0.)

def emit(s, c):
    g, prec, co, shape = c["g"], c["prec"], c["co"], c["shape"]; dt = np.float64 if prec == 8 else np.float32; c["dt"] = dt
    for x in co.cmds(): s.cmd(*x)
    s.cmd("new", prec, c["N"], c["lz"], c["field"], 0, c["Ng"], 0, c["z"]); s.cmd("poison", "1e30", 1)
    s.load("m", np.ones(shape, dt)); s.load("v", np.ones(shape, dt)*.1)
    s.cmd("init", PROP_BASE | PROP_RKN4, c["Ng"])
    c["block"] = None
    if g.random() < .6 and not c["hyb"]: c["block"] = cases.blocks(g, c["N"], c["lz"], cases.shift(prec, AXION), 1)[0]; s.cmd("block", *c["block"])
    if c["field"] == PAXION: s.cmd("initgravity")
    else: s.cmd("initgravity")
    if c["hyb"]: s.cmd("hybrid", 1)
    c["runs"] = []; R = co.R(c["z"])
    for k in range(3):
        kind = str(g.choice(["smooth"] if c["hyb"] else ["rough", "smooth", "point", "wave"]))
        if kind == "smooth": m, v = 1+.3*cases.smooth(g, shape, 2), .3*cases.smooth(g, shape, 2)
        elif kind == "point": m, v = np.full(shape, 1e-2), np.zeros(shape); m[tuple(int(g.integers(0, n)) for n in shape)] = 30.
        elif kind == "wave":
            ph = sum(int(g.integers(0, n//2+1))*np.arange(n).reshape([-1 if a == b else 1 for b in range(3)])/n for a, n in enumerate(shape)); m, v = 1+.5*np.cos(2*np.pi*ph+g.uniform(0, 6)), np.zeros(shape)
        else: m, v = g.normal(size=shape), g.normal(size=shape)
        sc = R*.3 if c["field"] == AXION else float(np.exp(g.uniform(-2, 2)))
        m, v = (sc*m).astype(dt), (sc*v).astype(dt)
        s.cmd("unfold"); s.load("m", m); s.load("v", v)
        if c["field"] == AXION: s.cmd("exchange", 1)
        fold = bool(g.integers(0, 2)) and c["field"] == PAXION
        if fold: s.cmd("fold")
        s.cmd("gravpot")
        if fold or c["hyb"]: s.cmd("setm2folded", 1); s.cmd("unfoldm2")
        h = s.dump("m2s", dt, shape); s.cmd("unfold"); c["runs"].append((kind, fold, m, v, h, s.dump("m", dt, shape), s.dump("v", dt, shape)))
    s.cmd("del")

def main(tier):
    rep = fw.Report("C18", tier, "one evaluation = one potential compared mode by mode with the periodic Poisson solution; distinct = (field, solver, precision, stencil, density kind, fold state, decomposition)",
                    ["reference: numpy FFT in double precision", "the hybrid solver is an approximation: only its agreement at long wavelengths is judged"])
    exe = build.build()["drv"]; todo = []
    for i in range({"quick": 48, "thorough": 900}[tier]):
        c = gen(i, tier); s = fw.Session(exe, c["ranks"], int(c["g"].choice([1, 2, 3])), N=c["N"]); emit(s, c); todo.append((s, c))
    fw.run_all([t[0] for t in todo], 6)
    for s, c in todo:
        key = "%s-%s-%s" % (c09.NAME[c["field"]], "hybrid" if c["hyb"] else "full", "double" if c["prec"] == 8 else "single")
        lab = "%s Ng %d ranks %d N %d shape %s L %.4g block %s" % (key, c["Ng"], c["ranks"], c["N"], c["shape"], c["co"].L, c["block"])
        if s.err: rep.session_error(s.err, key, s); continue
        eps = np.finfo(c["dt"]).eps
        for kind, fold, m, v, h, hm, hv in c["runs"]:
            l2 = lab+" %s fold %d" % (kind, fold)
            if c["field"] == PAXION: rho = m.astype(np.float64)**2+v.astype(np.float64)**2; tol = 60*eps*rho.size**.25; 
            else:
                D, S = c09.dens(dict(c, m=m, v=v, R=c["co"].R(c["z"]))); rho = sum(D.values()); tol = 60*eps*(1+float(max(x.max() for x in S.values())/rho.mean())); rho = rho/rho.mean()
            P = c04.phi_of(rho, c["co"].L); G = s.get(h).astype(np.float64); sc = np.abs(P).max()
            kz, ky, kx = kvec(rho.shape, c["co"].L); k2m = (kz**2+ky**2+kx**2); kmin2 = np.sort(np.unique(k2m))[1]
            if c["hyb"]:
                sl = float((P*G).sum()/(P*P).sum()); co_ = float((P*G).sum()/np.sqrt((P*P).sum()*(G*G).sum()))
                rep.true(.5 < sl < 1.3 and co_ > .93, key, "slope %.3f correlation %.4f: %s" % (sl, co_, l2), s)
            else:
                # rounding of the source enters the potential divided by k^2; the mean of the source is removed
                sc2 = max(sc, np.abs(rho-rho.mean()).max()/kmin2*.2)+rho.mean()/kmin2*1e-1*0
                t = tol*(1+rho.mean()/max(np.abs(rho-rho.mean()).max(), 1e-300)*.1)
                rep.close(G, P, t, key+"-potential", l2, s, scale=sc2)
                rep.true(abs(G.mean()) <= t*sc2, key+"-mean", "mean %g scale %g: %s" % (G.mean(), sc, l2), s)
                F, Rk = np.fft.fftn(G)*(-k2m), np.fft.fftn(rho-rho.mean())      # residual mode by mode
                rep.close(F.ravel()[1:], Rk.ravel()[1:], 1., key+"-modes", l2, s, scale=t*sc2*k2m.max()*np.sqrt(rho.size)+1e-300)
                rep.count("modes_compared", rho.size)
            rep.true(np.array_equal(s.get(hm), m) and np.array_equal(s.get(hv), v), key+"-field", "the solver changed the field: "+l2, s)
            rep.observe((key, c["Ng"], kind, fold, c["ranks"], c["shape"]), 1, sample=l2)
        s.clean()
    return rep.finish(100)
