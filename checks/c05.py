"""C05: spectral propagators; model-based monitor: every step against the stage equations with the exact Laplacian -k^2 of the periodic box."""
import numpy as np
from dataclasses import replace
import ref, cases, fw, build
from ref import *
import c02

NAME = {SAXION: "saxion", AXION: "axion"}

def gen(i, tier, field, kind):
    g = fw.rng("C05", i, tier, field, kind)
    prec = int([8, 4][(i+i//6) % 2]) if kind == "spec" else int([4, 8][i % 2])
    sh = cases.shift(prec, field)
    N = int(g.choice([n for n in (8, 12, 16, 20, 24, 28, 32) if n % max(sh, 4) == 0]))
    if field == SAXION:
        q = [QCD1, QCD0, QCD2, QCDC, QCDL][i % 5]; evo = list(c02.SAX_EVO)[(i//5) % 7] if kind == "spec" else 0
    else: q, evo = [QCD1, QCD0, QCDC, QCDL][i % 4], 0
    pot = q | PQ1 | evo
    co, z, delta = c02.cosmo(g, pot, N)
    if field == AXION and q == QCDL: co.beta = -1.
    dz = float(delta*g.uniform(.1, .4)); sing = field == SAXION and (q in (QCDC, QCDL) or evo)
    if sing: dz *= .25
    return dict(g=g, i=i, prec=prec, N=N, co=co, z=z, delta=delta, R=co.R(z), dz=dz, field=field, kind=kind, sing=sing, q=q, evo=evo, n=int(g.choice([1, 1, 2, 3])))

def emit(s, c, ranks):
    g, N, prec, field, co = c["g"], c["N"], c["prec"], c["field"], c["co"]
    c["lz"] = lz = int(g.choice([max(1, N//ranks), 2, 3, 4, 6])); c["shape"] = shape = (lz*ranks, N, N)
    dt = cases.dtypes(prec, field); amp = c["R"]/c["delta"]
    if field == SAXION:
        k = str(g.choice(["ring", "vacuum"] if c["sing"] else ["rough", "smooth", "ring", "vacuum"]))
        m = cases.saxion_field(g, shape, c["R"], k); v = .2*amp*(g.normal(size=shape)+1j*g.normal(size=shape))
    else:
        k = str(g.choice(["rough", "large", "smooth", "tiny"] if c["q"] != QCDL else ["smooth", "tiny"])); m = cases.axion_field(g, shape, c["R"], k); v = .3*amp*g.normal(size=shape)*(1e-3 if k == "tiny" else 1)
    c["k"] = k; c["m"] = m.astype(dt); c["v"] = v.astype(dt)
    for x in co.cmds(): s.cmd(*x)
    s.cmd("new", prec, N, lz, field, 0, c.get("Ng", 1), 0, c["z"])
    s.load("m", c["m"]); s.load("v", c["v"]); s.cmd("poison", "nan", 1)
    s.cmd("init", PROP_RKN4 | (PROP_SPEC if c["kind"] == "spec" else PROP_FSPEC), -1)
    if c["kind"] == "spec" and g.random() < .4: s.cmd("fold")
    s.cmd("prop", c["dz"], c["n"]); c["info"] = s.cmd("info")
    if c["kind"] == "fspec": s.cmd("ft", 3, FFT_BCK)
    c["hm"], c["hv"] = s.dump("m", dt, shape), s.dump("v", dt, shape)
    s.cmd("del")

FFT_FWD, FFT_BCK = 1, 2

def fspec_axion(c, m, v):
    """splitting: kick with the local acceleration (potential + R''/R), then the exact free rotation of every mode"""
    co, z = c["co"], c["z"]; kz, ky, kx = kvec(m.shape, co.L); p = np.sqrt(kz**2+ky**2+kx**2)
    M, V = np.fft.fftn(m), np.fft.fftn(v)
    for _ in range(c["n"]):
        for cc, d in zip(RKN4C, RKN4D):
            x = np.fft.ifftn(M).real
            V = V + cc*c["dz"]*np.fft.fftn(axion_acc(x, z, co, 0.))
            t = d*c["dz"]; C, S = np.cos(p*t), np.where(p > 0, np.sin(p*t)/np.where(p > 0, p, 1), t)
            M, V = M*C + V*S, V*C - M*p*p*np.where(p > 0, S, 0)
            z += t
    return np.fft.ifftn(M).real, np.fft.ifftn(V).real

def main(tier):
    rep = fw.Report("C05", tier, "one evaluation = one spectral evolution compared site by site with the stage equations using the exact Laplacian; distinct = (field, potential, evolution, precision, ranks, grid)",
                    ["reference computed in double with numpy FFTs"])
    exe = build.build()["drv"]
    plan = [(SAXION, "spec", {"quick": 40, "thorough": 700}[tier]), (AXION, "spec", {"quick": 24, "thorough": 400}[tier]), (AXION, "fspec", {"quick": 2, "thorough": 4}[tier])]
    todo = []
    for field, kind, n in plan:
        for i in range(n):
            c = gen(i, tier, field, kind); ranks = int(c["g"].choice([r for r in (1, 2, 4) if c["N"] % r == 0]))
            s = fw.Session(exe, ranks, int(c["g"].choice([1, 2, 3])), N=c["N"]); emit(s, c, ranks); todo.append((s, c, ranks))
    fw.run_all([t[0] for t in todo], 6)
    for s, c, ranks in todo:
        lab = "%s %s pot %d prec %d ranks %d N %d lz %d %s %s dz %.3g n %d" % (NAME[c["field"]], c["kind"], c["co"].pot, c["prec"], ranks, c["N"], c["lz"], c["k"], c["co"], c["dz"], c["n"])
        key = "%s-%s-%s-%d" % (NAME[c["field"]], c["kind"], c["co"].pot & 0x1f, c["prec"])
        if s.err: rep.session_error(s.err, key, s); continue
        judge(rep, s, c, lab, key, ranks)
        s.clean()
    return rep.finish(60)

def judge(rep, s, c, lab, key, ranks):
    co = c["co"]; up = (lambda a: a.astype(np.complex128)) if c["field"] == SAXION else (lambda a: a.astype(np.float64))
    m0, v0 = up(c["m"]), up(c["v"]); lapf = lambda m, z: lap_exact(m, co.L)
    gm, gv = s.get(c["hm"]), s.get(c["hv"])
    if c["kind"] == "fspec":     # recorded finding: the full spectral experiment does not evolve the field it is given
        m, v = fspec_axion(c, m0, v0); tol = 1e-3
        rep.close(gm, m, tol, "axion/fspec/unfinished", lab, s); rep.close(gv, v, tol, "axion/fspec/unfinished", lab, s)
        rep.observe((key, c["evo"], ranks, c["shape"]), 1, sample=lab)
        return
    eps = np.finfo(np.float64 if c["prec"] == 8 else np.float32).eps
    k2 = 3*(np.pi/c["delta"])**2
    # conditioning: rounding of the input amplified by the stage map itself
    g = fw.rng("C05p", c["i"]); e0 = eps*8
    mp = m0*(1+e0*g.uniform(-1, 1, m0.shape)); vp = v0*(1+e0*g.uniform(-1, 1, m0.shape))
    def model(pot):
        cc = replace(co, pot=pot)
        m, v, _ = step(m0, v0, c["z"], c["dz"], cc, c["field"], lapf, c["n"]); m2, v2, _ = step(mp, vp, c["z"], c["dz"], cc, c["field"], lapf, c["n"])
        sm, sv = np.abs(m).max(), np.abs(v).max()
        return m, v, 30*np.abs(m2-m).max()+40*eps*(sm+c["dz"]*sv+c["dz"]**2*k2*sm), 30*np.abs(v2-v).max()+40*eps*(sv+c["dz"]*k2*sm), sm
    def fits(r): return np.isfinite(gm).all() and np.isfinite(gv).all() and np.abs(gm-r[0]).max() <= r[2] and np.abs(gv-r[1]).max() <= r[3]
    r, key0 = model(co.pot), key
    if not fits(r) and c["field"] == SAXION:     # identify the recorded deviations by what is computed instead
        noq = (lambda p: p & ~0x3f | QCD0) if c["q"] == QCDL else (lambda p: p)
        if co.pot & EVOL_THETA and fits(model(noq(co.pot & ~EVOL_THETA))): key = "saxion/spectral/EVOL_THETA/evolves-both-modes"
        elif c["q"] == QCDL and fits(model(noq(co.pot))): key = "saxion/spectral/QCDL/computes-QCD0-instead"
    m, v, tm, tv, sm = r
    rep.close(gm, m, 1., key if "/" in key else key+"-m", lab, s, scale=tm); rep.close(gv, v, 1., key if "/" in key else key+"-v", lab, s, scale=tv)
    rep.maxof("tol_over_scale_%d" % c["prec"], tm/sm)
    e = s.at(c["info"]); zt = c["z"]+c["n"]*c["dz"]
    rep.close(e["z"], zt, 1e-13, key0+"-z", lab, s); rep.close(e["R"], co.R(zt), 1e-12, key0+"-R", lab, s)
    rep.observe((key, c["evo"], ranks, c["shape"]), 1, sample=lab)
