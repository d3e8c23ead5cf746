"""C11: conversions between field representations; runtime monitor: arrays before and after each conversion (complex -> angle, jump mending, angle -> complex, angle -> non-relativistic field) against the definition of the target representation, site by site."""
import numpy as np
import ref, cases, fw, build
from ref import *
WHAT = ["totheta", "mend", "tocmplx", "topaxion", "rough", "mod", "roundtrip"]

def angle(g, shape, big):
    """smooth periodic angle without winding whose neighbouring differences stay below 0.9 pi; range up to many periods"""
    f = cases.smooth(g, shape, 2); d = max(np.abs(np.roll(f, 1, a)-f).max() for a in range(3))
    th = f*(g.uniform(.3, .85)*np.pi/d if big else g.uniform(.1, 3)*min(1, .2*np.pi/d))+g.uniform(-3, 3)
    return th

def gen(i, tier):
    g = fw.rng("C11", i, tier); prec = int([8, 4][i % 2]); what = WHAT[(i//2) % len(WHAT)]
    field = SAXION if what in ("totheta", "tocmplx", "rough", "mod", "roundtrip") else AXION
    Ng = int(g.integers(1, 5)); sh = cases.shift(prec, AXION); ranks = int(g.choice([1, 2, 4])); lz = 2*Ng+int(g.integers(0, 5)); N = int(g.choice([n for n in (16, 24, 32, 40, 64) if n//sh >= 2*Ng]+[2*Ng*sh]))
    co = Cosmo(L=float(np.exp(g.uniform(0, 3))), pot=QCD1 | PQ1); co.nqcd = float(g.choice([0., 7., 3.3])); co.indi3 = float(np.exp(g.uniform(0, 4)))
    co.frw = float(g.choice([1., 1., .5, 2., .75])); co.zth = float(g.choice([1e20, 2.])); co.zre = float(g.choice([1e20, 3.])) if co.zth < 3 else 1e20; co.nqcdr = float(g.choice([-2., 5.])); co.grav = float(g.choice([0., .5]))
    return dict(g=g, prec=prec, what=what, field=field, Ng=Ng, ranks=ranks, lz=lz, N=N, shape=(lz*ranks, N, N), co=co, z=float(g.uniform(.6, 4)), lowmem=0)

def background(c):
    """R, R'/R, axion mass and W'/W with W = m_A R, from the definition of the cosmology"""
    co, z = c["co"], c["z"]
    if co.frw == 1 and co.grav > 0: R = z*(1+.25*co.grav*z); Rp = (1+.5*co.grav*z)/R
    else: R = z**co.frw; Rp = co.frw/z
    n = co.nqcd
    if co.zth <= co.zre: n = co.nqcd if R < co.zth else 0 if R <= co.zre else co.nqcdr; m2 = co.indi3**2*(R**co.nqcd if R < co.zth else co.zth**co.nqcd*(1 if R <= co.zre else (R/co.zre)**co.nqcdr))
    else: n = co.nqcd if R < co.zth else 0; m2 = co.indi3**2*min(R, co.zth)**co.nqcd
    return R, Rp, np.sqrt(m2), (n/2+1)*Rp

def emit(s, c):
    g, prec, co, shape, z, w = c["g"], c["prec"], c["co"], c["shape"], c["z"], c["what"]; dt = cases.dtypes(prec, c["field"]); rt = np.float64 if prec == 8 else np.float32; c["rt"] = rt
    for x in co.cmds(): s.cmd(*x)
    s.cmd("new", prec, c["N"], c["lz"], c["field"], 0, c["Ng"], c["lowmem"], z); s.cmd("poison", "1e30", 1-c["lowmem"])
    R, Rp, mA, lW = background(c); c["bk"] = (R, Rp, mA, lW)
    c["fold"] = bool(g.integers(0, 2)) and w != "tocmplx"
    th = angle(g, shape, g.random() < .7); thv = g.normal(size=shape)*np.exp(g.uniform(-2, 2))
    if w in ("rough", "mod"): th = g.uniform(-np.pi, np.pi, shape)
    if w == "tocmplx" or w == "roundtrip":
        m, v = (th+1j*g.normal(size=shape)*0).astype(dt), (thv+0j).astype(dt)
    elif c["field"] == SAXION:
        c["sh"] = float(g.choice([0., .3*R*g.uniform(-1, 1)])); m = (R*g.uniform(.3, 1.7, shape)*np.exp(1j*th)+c["sh"]).astype(dt); v = (g.normal(size=shape)+1j*g.normal(size=shape)).astype(dt)
    elif w == "mend":
        c["k0"] = g.integers(-3, 4, shape) if g.random() < .5 else -np.round(th/(2*np.pi)); m = (R*(th+2*np.pi*c["k0"])).astype(dt); v = (R*thv+R*Rp*(th+2*np.pi*c["k0"])).astype(dt)
    else: a = float(np.exp(g.uniform(-5, 0))); m = (a*R*th).astype(dt); v = (a*R*mA*R*thv).astype(dt)
    c["th"], c["thv"] = th, thv; c["m"], c["v"] = m, v
    s.load("m", m); s.load("v", v)
    if c["field"] == AXION or w in ("totheta", "rough", "mod") and g.random() < .5: s.cmd("exchange", 1)
    if c["fold"]: s.cmd("fold")
    c["h"] = []
    def out(d): s.cmd("unfold"); c["h"].append((s.dump("m", d, shape), s.dump("v", d, shape)))
    if w in ("totheta", "rough"): s.cmd("totheta", repr(c["sh"])); out(rt)
    if w == "mod": s.cmd("totheta", repr(c["sh"]), 1); out(rt)
    if w == "mend": s.cmd("mend"); out(rt); s.cmd("mend"); out(rt)
    if w in ("tocmplx", "roundtrip"): s.cmd("tocmplx"); out(dt)
    if w == "roundtrip": s.cmd("totheta", "0"); out(rt)
    if w == "topaxion": s.cmd("topaxion"); out(rt)
    s.cmd("params"); s.cmd("del")

def main(tier):
    rep = fw.Report("C11", tier, "one evaluation = one conversion of a lattice, every site compared; distinct = (conversion, precision, ghost depth, ranks, lattice shape, fold state, expansion law)", ["reference conversions in double precision numpy"])
    exe = build.build()["drv"]; todo = []
    for i in range({"quick": 126, "thorough": 3000}[tier]):
        c = gen(i, tier); s = fw.Session(exe, c["ranks"], int(c["g"].choice([1, 2, 3, 5])), N=c["N"]); emit(s, c); todo.append((s, c))
    fw.run_all([t[0] for t in todo], 6)
    for s, c in todo:
        w, g = c["what"], c["g"]; pr = "double" if c["prec"] == 8 else "single"; key = "%s-%s" % (w, pr)
        R, Rp, mA, lW = c["bk"]; dR = R*Rp; co = c["co"]
        lab = "%s Ng %d ranks %d shape %s z %.4g frw %g grav %g fold %d lowmem %d" % (key, c["Ng"], c["ranks"], c["shape"], c["z"], co.frw, co.grav, c["fold"], c["lowmem"])
        if s.err: rep.session_error(s.err, key, s); continue
        eps = np.finfo(c["rt"]).eps; m0, v0 = c["m"].astype(np.complex128 if np.iscomplexobj(c["m"]) else float), c["v"].astype(np.complex128 if np.iscomplexobj(c["v"]) else float)
        H = [(s.get(a).astype(np.complex128 if np.iscomplexobj(s.get(a)) else float), s.get(b).astype(np.complex128 if np.iscomplexobj(s.get(b)) else float)) for a, b in c["h"]]
        def angles(cc, vv, phase, pv, k2, mended, smoothref=None):
            """cc/R is a representative of the phase, vv = R phase' + R' cc/R"""
            kk = (cc/R-phase)/(2*np.pi); k = np.round(kk); amp = np.abs(cc/R).max()+np.pi
            rep.close(2*np.pi*(kk-k), 0*kk, 40*eps*amp, k2+"-phase", lab, s, scale=1.)
            ve = R*pv+dR*(cc/R); rep.close(vv, ve, 60*eps*amp, k2+"-velocity", lab, s, scale=np.abs(R*pv).max()+dR*amp)
            if smoothref is not None:
                q = np.round((cc/R-smoothref)/(2*np.pi)); rep.true(q.min() == q.max(), k2+"-jumps", "2 pi jumps left at %d sites of a defect-free field: %s" % ((q != np.median(q)).sum(), lab), s)
                for a in range(3): rep.true(np.abs(np.roll(cc, 1, a)-cc).max() <= np.pi*R*(1+20*eps*amp), k2+"-neighbours", "axis %d jump %g: %s" % (a, np.abs(np.roll(cc, 1, a)-cc).max()/R, lab), s)
                rep.count("periods_removed_or_spanned", int(np.abs(k).sum()))
            if not mended: rep.true(np.abs(cc).max() <= np.pi*R*(1+8*eps), key+"-range", "angle outside (-pi, pi]: "+lab, s)
        if w in ("totheta", "rough", "mod"):
            mm = m0-c["sh"]; ph = np.angle(mm); pv = (v0*np.conj(mm)).imag/np.abs(mm)**2
            angles(H[0][0], H[0][1], ph, pv, key, w != "mod", c["th"] if w == "totheta" else None)
        elif w == "mend":
            pv = (v0-dR*m0/R)/R
            for k, (a, b) in enumerate(H):
                angles(a, b, m0/R, pv, key, True, c["th"])
            rep.true(np.array_equal(H[0][0], H[1][0]) and np.array_equal(H[0][1], H[1][1]), key+"-idempotent", "a second mending changes the field: "+lab, s)
        elif w in ("tocmplx", "roundtrip"):
            mc = R*np.exp(1j*m0.real); vc = mc*(Rp+1j*v0.real); amp = np.abs(m0).max()+4
            rep.close(H[0][0], mc, 20*eps*amp, key+"-complex", lab, s, scale=R); rep.close(H[0][1], vc, 20*eps*amp, key+"-complexvel", lab, s, scale=np.abs(vc).max())
            if w == "roundtrip": angles(H[1][0], H[1][1], m0.real, v0.real, key+"-back", True, c["th"])
        else:
            W = mA*R; me = m0*np.sqrt(W/2); ve = v0/np.sqrt(2*W)+me*lW/(2*W)
            rep.close(H[0][0], me, 20*eps, key+"-m", lab, s, scale=np.abs(me).max()); rep.close(H[0][1], ve, 20*eps, key+"-v", lab, s, scale=np.abs(v0/np.sqrt(2*W)).max()+np.abs(me*lW/(2*W)).max())
        rep.observe((w, pr, c["Ng"], c["ranks"], c["shape"], c["fold"], co.frw), len(H), sample=lab)
        s.clean()
    return rep.finish(100)
