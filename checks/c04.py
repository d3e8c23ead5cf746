"""C04: non-relativistic axion (paxion) steps; model-based monitor: every evolved site against the splitting of the discrete Schroedinger flow, density conservation of the potential part, number conservation of the whole step, Poisson residual of the Newtonian potential."""
import numpy as np
import ref, cases, fw, build
from ref import *

def gen(i, tier):
    g = fw.rng("C04", i, tier); prec = int([8, 4][i % 2]); sh = cases.shift(prec, AXION)
    Ng = 1+(i//2) % 5; grav = i % 4 >= 2 if i % 8 < 6 else False
    N = int(g.choice([n for n in (16, 24, 32, 40) if n % sh == 0 and n//sh >= 2*Ng] or [16*((2*Ng*sh+15)//16)]))
    co = Cosmo(L=float(g.uniform(1, 30)), pot=QCD1 | PQ1)
    co.frw = float(g.choice([1., .5, 2., .8])); z = float(np.exp(g.uniform(-1, 2)))
    if grav: co.frw, co.grav = 1., float(np.exp(g.uniform(-4, 1)))
    co.nqcd = co.nqcdr = float(g.choice([0., 7., 3.34, 5.])); co.indi3 = float(np.exp(g.uniform(-1, 3)))
    if g.random() < .3: co.zth = co.R(z)*float(g.uniform(.5, .95)); co.zre = 1e30
    delta = co.L/N; mR = np.sqrt(co.mA2(z))*co.R(z)
    dz = min(float(g.uniform(.02, .15))*z, float(g.uniform(.2, 1.))*2*mR*delta**2/12)
    co.beta = float(g.uniform(-1, 1)*co.R(z)**2*8/dz)
    return dict(g=g, i=i, prec=prec, N=N, Ng=Ng, co=co, z=z, delta=delta, dz=dz, grav=grav, n=int(g.choice([1, 1, 2, 3])))

def phi_of(rho, L):
    kz, ky, kx = kvec(rho.shape, L); k2 = kz**2+ky**2+kx**2; k2[0, 0, 0] = 1.
    f = -np.fft.fftn(rho)/k2; f[0, 0, 0] = 0
    return np.fft.ifftn(f).real

def evolve(c, m, v, beta, detail=None):
    co, z, Ng, d = c["co"], c["z"], c["Ng"], c["delta"]
    def kick(m, v, z, h):
        R = co.R(z); u = 2*co.frw-1
        K = beta*z/(8*R*R)*(np.log1p(h/z) if abs(u) < 1e-8 else (1-(z/(z+h))**u)/u)
        ph = K*(m*m+v*v)
        if c["grav"]: ph = ph - np.sqrt(co.mA2(z))*co.grav*h*phi_of(m*m+v*v, co.L)
        C, S = np.cos(ph), np.sin(ph)
        return C*m-S*v, C*v+S*m
    def lapc(z, h):
        al = (1+co.nloc(z)/2)*co.Rp(z)*z-1
        dzp = z*np.log1p(h/z) if abs(al) < 1e-2 else z/al*(1-(1+h/z)**-al)
        return dzp/(2*np.sqrt(co.mA2(z))*co.R(z))
    for _ in range(c["n"]):
        m, v = kick(m, v, z, c["dz"]/2)
        for cc, dd in zip(RKN4C, RKN4D):
            v = v+lapc(z, cc*c["dz"])*lap_fd(m, Ng, d)
            m = m-lapc(z, dd*c["dz"])*lap_fd(v, Ng, d)
            z += dd*c["dz"]
        m, v = kick(m, v, z, c["dz"]/2)
    return m, v

def emit(s, c, ranks):
    g, N, prec, co, Ng = c["g"], c["N"], c["prec"], c["co"], c["Ng"]
    c["lz"] = lz = int(g.choice([max(N//ranks, 2*Ng), max(2*Ng, 2), 2*Ng+1])); lz += lz % 2 if c["grav"] else 0   # the gravity solver insists on an even depth
    c["shape"] = shape = (lz*ranks, N, N)
    dt = np.float64 if prec == 8 else np.float32
    k = c["k"] = str(g.choice(["rough", "smooth", "tiny", "vortex"]))
    if k == "smooth": m, v = 1+.3*cases.smooth(g, shape, 3), .3*cases.smooth(g, shape, 3)
    elif k == "vortex":
        x = np.linspace(-2, 2, N); m = np.broadcast_to(x[None, None, :], shape).copy(); v = np.broadcast_to(x[None, :, None], shape).copy()
    else: a = 1e-3 if k == "tiny" else .6; m, v = a*g.normal(size=shape), a*g.normal(size=shape)
    c["m"], c["v"] = m.astype(dt), v.astype(dt)
    for x in co.cmds(): s.cmd(*x)
    s.cmd("new", prec, N, lz, PAXION, 0, Ng, 0, c["z"])
    s.cmd("poison", "nan", 1); s.load("m", c["m"]); s.load("v", c["v"])
    s.cmd("init", PROP_BASE | PROP_RKN4, Ng)
    c["block"] = None
    if not c["grav"] and g.random() < .6:
        c["block"] = cases.blocks(g, N, lz, cases.shift(prec, AXION), 1)[0]; s.cmd("block", *c["block"])
    if c["grav"]:
        s.cmd("initgravity"); c["h0"] = s.dump("m", dt, shape), s.dump("v", dt, shape)
        if g.random() < .5:
            s.cmd("gravpot"); c["hphi"] = s.dump("m2s", dt, shape)
    elif g.random() < .5: s.cmd("fold")
    s.cmd("prop", c["dz"], c["n"]); c["info"] = s.cmd("info")
    s.cmd("unfold"); c["hm"], c["hv"] = s.dump("m", dt, shape), s.dump("v", dt, shape)
    s.cmd("del")

def main(tier):
    rep = fw.Report("C04", tier, "one evaluation = one comparison of an evolved (or potential) array with the splitting of the discrete Schroedinger flow; distinct = (precision, stencil, gravity, expansion, field kind, decomposition)",
                    ["reference computed in double precision numpy; hybrid gravity solver excluded"])
    exe = build.build()["drv"]; todo = []
    for i in range({"quick": 56, "thorough": 900}[tier]):
        c = gen(i, tier); ranks = int(c["g"].choice([r for r in (1, 2, 4) if c["N"] % r == 0]))
        s = fw.Session(exe, ranks, int(c["g"].choice([1, 2, 3])), N=c["N"]); emit(s, c, ranks); todo.append((s, c, ranks))
    fw.run_all([t[0] for t in todo], 6)
    for s, c, ranks in todo:
        key = "paxion-%s-%s" % ("grav" if c["grav"] else "free", "double" if c["prec"] == 8 else "single")
        lab = "%s Ng %d ranks %d N %d shape %s %s %s z %.4g dz %.3g n %d block %s" % (key, c["Ng"], ranks, c["N"], c["shape"], c["k"], c["co"], c["z"], c["dz"], c["n"], c["block"])
        if s.err: rep.session_error(s.err, key, s); continue
        judge(rep, s, c, lab, key, ranks); s.clean()
    return rep.finish(100)

def judge(rep, s, c, lab, key, ranks):
    eps = np.finfo(np.float64 if c["prec"] == 8 else np.float32).eps; co = c["co"]
    m0, v0 = c["m"].astype(np.float64), c["v"].astype(np.float64); beta = co.beta
    if c["grav"]:
        n2 = np.mean(m0*m0+v0*v0); m0, v0 = m0/np.sqrt(n2), v0/np.sqrt(n2); beta *= n2
        a, b = s.get(c["h0"][0]), s.get(c["h0"][1])
        rep.close(a, m0, 40*eps+3e-12, key+"-normalised", lab, s); rep.close(b, v0, 40*eps+3e-12, key+"-normalised", lab, s)
        if "hphi" in c:
            P = phi_of(m0*m0+v0*v0, co.L)
            rep.close(s.get(c["hphi"]), P, 200*eps+1e-11, key+"-potential", lab, s); rep.count("potentials")
    m, v = evolve(c, m0, v0, beta)
    g = fw.rng("C04p", c["i"]); e0 = 8*eps
    m2, v2 = evolve(c, m0*(1+e0*g.uniform(-1, 1, m0.shape)), v0*(1+e0*g.uniform(-1, 1, m0.shape)), beta)
    gm, gv = s.get(c["hm"]).astype(np.float64), s.get(c["hv"]).astype(np.float64)
    sc = np.sqrt((m*m+v*v).max())
    tol = 100*max(np.abs(m2-m).max(), np.abs(v2-v).max())/sc+100*eps
    if c["grav"]:                # rounding of the normalisation is common to all sites
        m3, v3 = evolve(c, m0*(1+1e-12), v0*(1+1e-12), beta); tol += 5*max(np.abs(m3-m).max(), np.abs(v3-v).max())/sc
    # increments of powers of time lose eps*ct/dz
    tol += 20*2.2e-16*c["z"]/c["dz"]*(1+abs(beta)*c["dz"]/(8*co.R(c["z"])**2)*sc**2)
    e1 = rep.close(gm, m, tol, key+"-m", lab, s, scale=sc); e2 = rep.close(gv, v, tol, key+"-v", lab, s, scale=sc)
    rep.maxof("worst_error_over_tolerance", max(e1, e2)/tol); rep.maxof("tolerance_%d" % c["prec"], tol)
    # number conservation: the code must lose no more than the exact splitting does
    n0, n1, nr = np.sum(m0**2+v0**2), np.sum(gm**2+gv**2), np.sum(m*m+v*v)
    rep.true(abs(n1-nr) <= 4*tol*n0, key+"-number", lab+" number %g -> %g expected %g" % (n0, n1, nr), s)
    rep.maxof("number_change_per_run", abs(n1/n0-1))
    e = s.at(c["info"]); zt = c["z"]+c["n"]*c["dz"]
    rep.close(e["z"], zt, 1e-13, key+"-z", lab, s); rep.close(e["R"], co.R(zt), 1e-12, key+"-R", lab, s)
    rep.observe((key, c["Ng"], co.frw, c["k"], ranks, c["shape"]), 3, sample=lab)
