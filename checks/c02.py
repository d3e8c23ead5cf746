"""C02 / C03: one or more steps of the real propagator against an independent model of the discretised equations."""
import numpy as np
import ref, cases, fw, build
from ref import *

SAX_EVO = {0: "plain", EVOL_THETA: "evolTheta", EVOL_RHO: "evolRho", DAMP_RHO: "dampRho", DAMP_RHO | EVOL_RHO: "dampRho+evolRho",
           DAMP_ALL: "dampAll", DAMP_ALL | EVOL_THETA: "dampAll+evolTheta"}
QN = {QCD0: "QCD0", QCD1: "QCD1", QCD2: "QCD2", QCDC: "QCDC", QCDL: "QCDL", QCDV: "QCDV"}

def cosmo(g, pot, N):
    frw = float(g.choice([1., 1., 0.5, 2., g.uniform(0.3, 2.5)]))
    z = float(np.exp(g.uniform(np.log(0.3), np.log(5.))))
    R = z**frw
    delta = z*g.uniform(0.1, 0.6); L = delta*N
    lz2e = float(g.choice([0., 2., g.uniform(0, 3)]))
    lamP = g.uniform(0.3, 1.5)/(delta*R)**2
    nq = float(g.choice([0., 7., g.uniform(1, 8)])); nqr = float(g.uniform(0, 8))
    mA2 = g.uniform(0.05, 0.5)/(delta*R)**2
    mode = g.choice(["pow", "sat", "restore", "cross"])
    zth, zre = 1e30, 0.
    if mode == "sat": zth = R*g.uniform(0.3, 0.9)
    if mode == "restore": zre = R*g.uniform(0.6, 0.9); zth = zre*g.uniform(0.5, 0.9)
    if mode == "cross": zth = R*(1+0.05*frw*delta/z) ; zre = zth*g.uniform(1.005, 1.03) if g.random() < .5 else 0.
    co = Cosmo(L=float(L), lam=float(lamP*R**lz2e), lz2e=lz2e, nqcd=nq, nqcdr=nqr, pot=int(pot), frw=frw, zth=float(zth), zre=float(zre))
    co.indi3 = 1.; co.indi3 = float(np.sqrt(mA2/co.mA2(z)))
    if pot & (DAMP_RHO | DAMP_ALL):
        if g.random() < .5: co.dectime = float(z*g.uniform(0.5, 2)); co.gamma = float(g.uniform(1, 5)*co.dectime/R/delta)
        else: co.gamma = float(R*g.uniform(1, 5)/delta)
    else:
        co.gamma = float(g.uniform(0, 3)); co.dectime = float(g.choice([-1., 1.]))   # must have no effect
    return co, z, delta

def gen(field, i, tier, force=None):
    g = fw.rng("C02", field, i, tier)
    prec = int(g.choice([8, 4])); f = field
    if force: prec = force[0]
    sh = cases.shift(prec, f)
    Ng = int(g.integers(1, 6))
    if tier == "quick": Ng = min(Ng, 3*8//sh)
    Ns = [n for n in ((16, 24, 32, 40, 48) if tier == "quick" else (16, 24, 32, 40, 48, 64, 80)) if n % (sh*2) == 0 and n//sh >= 2*Ng]
    N = int(Ns[int(g.integers(0, min(2, len(Ns))))])
    if f == SAXION:
        q = [QCD0, QCD1, QCD2, QCDC, QCDL][i % 5]; evo = list(SAX_EVO)[(i//5) % 7]
        if force: q, evo = force[1:]
        pot = q | PQ1 | evo
    else:
        q = [QCD1, QCDL, QCD0, QCDC][i % 4]
        if force: q = force[1]
        evo = 0; pot = q | PQ1
    co, z, delta = cosmo(g, pot, N)
    R = co.R(z); dz = float(delta*g.uniform(0.2, 0.6))
    sing = f == SAXION and (q in (QCDC, QCDL) or evo)
    if sing: dz *= 0.25
    if f == AXION and q == QCDL and g.random() < .5: co.beta = 0.
    else: co.beta = float(g.choice([-1., 1., 0.5]))
    lowmem = int(f == SAXION and not evo & (EVOL_THETA | EVOL_RHO) and g.random() < .25)
    return dict(g=g, lowmem=lowmem, prec=prec, N=N, Ng=Ng, q=q, evo=evo, sing=sing, co=co, z=z, R=R, dz=dz, delta=delta, field=f, sh=sh, n=int(g.choice([1, 1, 2])))

def emit(s, c, ranks):
    """script commands of one case; returns handles"""
    g, N, prec, field, co = c["g"], c["N"], c["prec"], c["field"], c["co"]
    lz = max(2*c["Ng"], int(g.choice([4, 6, 8, 10])))
    if lz*ranks > 48: lz = max(2*c["Ng"], 4)
    c["lz"] = lz; shape = (lz*ranks, N, N)
    dt = cases.dtypes(prec, field); R, delta = c["R"], c["delta"]
    amp = R/delta
    if field == SAXION:
        sing = c["sing"]
        kind = str(g.choice(["ring", "vacuum"] if sing else ["rough", "smooth", "ring", "vacuum"]))
        m = cases.saxion_field(g, shape, R, kind)
        v = 0.3*amp*(g.normal(size=shape)+1j*g.normal(size=shape))
        if kind != "rough" and (sing or g.random() < .5): v = v*0.2
    else:
        kind = str(g.choice(["rough", "large", "smooth", "tiny"] if field == AXION else ["cluster", "smooth"] if prec == 4 else ["rough", "cluster", "smooth"]))
        if c["q"] == QCDL and prec == 4 and kind in ("rough", "large"): kind = "smooth"
        m = cases.axion_field(g, shape, R, kind); v = 0.3*amp*g.normal(size=shape)*(1e-3 if kind == "tiny" else 1.)
        if field == AXION_MOD: m = wrap(m, 2*np.pi*R); v = v*0.1
        if kind == "cluster": c["dz"] *= 0.2
    c["kind"] = kind
    c["m"] = m.astype(dt); c["v"] = v.astype(dt)
    for k in co.cmds(): s.cmd(*k)
    s.cmd("new", prec, N, lz, field, 0, c["Ng"], c["lowmem"], c["z"])
    if field == AXION_MOD: s.cmd("field", field)
    s.load("m", c["m"]); s.load("v", c["v"])
    s.cmd("poison", "nan", 1-c["lowmem"])
    s.cmd("init", PROP_RKN4 | PROP_BASE, c["Ng"])
    b = cases.blocks(g, N, lz, c["sh"], 1)[0] if g.random() < .6 else None
    c["block"] = b
    s.cmd(*(("block",)+b if b else ("blockdefault",)))
    s.cmd("prop", c["dz"], c["n"])
    c["info"] = s.cmd("info")
    s.cmd("unfold")
    c["hm"], c["hv"] = s.dump("m", dt, shape), s.dump("v", dt, shape)
    s.cmd("del")

def model(c, m, v, **kw):
    """kw: a different potential (pot) or self-interaction series (beta) to identify known deviations"""
    co, N = c["co"], c["N"]
    if "pot" in kw: co = replace(co, pot=kw["pot"])
    mn = mx = np.abs(m)/co.R(c["z"]); mn, mx = mn.min(), mx.max()
    lapf = (lambda m, z: lap_mod(m, c["Ng"], co.L/N, co.R(z))) if c["field"] == AXION_MOD else (lambda m, z: lap_fd(m, c["Ng"], co.L/N))
    z, dz = c["z"], c["dz"]
    for _ in range(c["n"]):
        for k, d in zip(RKN4C, RKN4D):
            if c["field"] == SAXION:
                m, v = saxion_stage(m, v, z, k, d, dz, co, lapf(m, z))
                r = np.abs(m)/co.R(z); mn, mx = min(mn, r.min()), max(mx, r.max())
            else:
                a = axion_acc(m, z, co, lapf(m, z))
                if "beta" in kw:
                    t = m/co.R(z); b = kw["beta"]*t*t/6
                    a = a - co.mA2(z)*co.R(z)**3*t*(-b+0.3*b*b)
                v = v + k*dz*a; m = m + d*dz*v
                if c["field"] == AXION_MOD: m = wrap(m, 2*np.pi*co.R(z))
            z = z + d*dz
    if not kw: c["range"] = (mn, mx)
    return m, v, z

def judge(rep, s, c, ranks, threads):
    name = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod"}[c["field"]]
    pn = "double" if c["prec"] == 8 else "single"
    tag = "%s/%s/%s/%s" % (name+("-lowmem" if c["lowmem"] else ""), pn, QN[c["q"]], SAX_EVO[c["evo"]])
    gm, gv = s.get(c["hm"]), s.get(c["hv"])
    W = np.complex128 if c["field"] == SAXION else np.float64
    m0, v0 = c["m"].astype(W), c["v"].astype(W)
    rm, rv, z = model(c, m0, v0)
    if c["field"] == SAXION and (c["range"][1] > 30 or (c["sing"] and c["range"][0] < 0.2)):
        rep.count("skipped_ill_conditioned"); return
    # conditioning: response of the model to one rounding error in every input
    eps = float(np.finfo(c["m"].dtype).eps); g = np.random.default_rng(1)
    pm, pv, _ = model(c, m0*(1+eps*g.choice([-1, 1], m0.shape)), v0*(1+eps*g.choice([-1, 1], m0.shape)))
    P = 2*np.pi*c["co"].R(z) if c["field"] == AXION_MOD else None
    ok = ~c["ambiguous"] if P else np.ones(gm.shape, bool)   # a neighbour difference within rounding of half a period may be wrapped either way
    if ok.mean() < 0.2: rep.count("skipped_ambiguous"); return
    def errs(ref, n=0):
        out = []
        for what, a, b, p, r in (("m", gm, ref[0], pm, rm), ("v", gv, ref[1], pv, rv)):
            d, dp = a-b, p-r
            if P and what == "m": d, dp = wrap(d, P), wrap(dp, P)
            scale = float(np.max(np.abs(b))); tol = 40*float(np.max(np.abs(dp)[ok]))/scale + 60*eps
            out.append((what, np.where(ok, b+d, b), b, tol, scale))
        return out
    def fits(**kw):
        return all(bool((np.abs(a-b) <= 2*t*sc).all()) for _, a, b, t, sc in errs(model(c, m0, v0, **kw)))
    key = tag
    base = errs((rm, rv))
    if c["q"] == QCDL and any(not (np.abs(a-b) <= t*sc).all() for _, a, b, t, sc in base):
        # identify the recorded deviations of the linear potential by what they compute instead
        if c["field"] == SAXION:
            alt = QCD0 if c["prec"] == 8 else QCDC
            if fits(pot=c["co"].pot & ~0x3f | alt): key = "saxion/%s/QCDL/computes-%s-instead" % (pn, QN[alt])
        elif c["prec"] == 4 and c["co"].beta != 0 and fits(beta=c["co"].beta): key = name+"/single/QCDL/beta-series"
    for what, a, b, tol, scale in base:
        detail = "%s %s Ng=%d N=%d lz=%d ranks=%d threads=%d block=%s z=%.5g dz=%.5g n=%d kind=%s %s" % (tag, what, c["Ng"], c["N"], c["lz"], ranks, threads, c["block"], c["z"], c["dz"], c["n"], c["kind"], c["co"])
        e = rep.close(a, b, tol, key, detail, s, scale)
        if key == tag: rep.maxof("worst_error_over_tolerance", e/tol)
    rep.true(abs(s.at(c["info"])["z"]-z) <= 1e-12*z, tag+"/time", "time after step %r expected %r" % (s.at(c["info"])["z"], z), s)
    rep.observe((tag, c["Ng"], c["kind"], ranks), int(gm.size), dict(case=tag, Ng=c["Ng"], N=c["N"], ranks=ranks, field=c["kind"], z=c["z"], dz=c["dz"], frw=c["co"].frw))
    rep.count("steps_checked", c["n"]); rep.count("cases")

def ambiguous(c):
    """sites whose stencil or own value comes too close to a branch point of the modulus during the step"""
    m, v = c["m"].astype(float), c["v"].astype(float)
    co, N, z, dz = c["co"], c["N"], c["z"], c["dz"]; bad = np.zeros(m.shape, bool)
    tol = 2e-4 if c["prec"] == 4 else 1e-11
    for _ in range(c["n"]):
        for k, d in zip(RKN4C, RKN4D):
            P = 2*np.pi*co.R(z)
            grow = bad.copy()
            for n in range(1, c["Ng"]+1):
                for a in (0, 1, 2):
                    for s_ in (n, -n):
                        df = np.roll(m, s_, a)-m
                        grow |= np.abs(np.abs(wrap(df, P))-P/2) < tol*P
                        grow |= np.roll(bad, s_, a)
                        grow |= np.abs(df) > 1.49*P    # beyond the single wrap the compact variant provides
            bad = grow
            v = v + k*dz*axion_acc(m, z, co, lap_mod(m, c["Ng"], co.L/N, co.R(z)))
            m = m + d*dz*v
            m = wrap(m, P); z += d*dz
    return bad

def run(tier, fields, prop):
    rep = fw.Report(prop, tier, "one case = random lattice, precision, stencil order, cosmology, potential, block shape, ghosts poisoned with NaN; every site of m and v after the step is compared with an independent model (tolerance from the model's own response to one rounding error). Non-trivial = distinct (field type, precision, potential, evolution/damping mode, stencil order, field kind, ranks)",
                    ["reference model is a correct reading of the equations of motion documented in the code"])
    exe = build.build()["drv"]
    plan = []
    per = {"quick": 4, "thorough": 16}[tier]
    for f in fields:
        if f == SAXION:
            k = 0
            for rep_i in range(per):
                for q in (QCD0, QCD1, QCD2, QCDC, QCDL):
                    for e in SAX_EVO:
                        for p in (8, 4):
                            plan.append((f, k, (p, q, e))); k += 1
        else:
            k = 0
            for rep_i in range(per*(8 if f == AXION else 5)):
                for q in (QCD0, QCD1, QCDL, QCDC):
                    for p in (8, 4):
                        plan.append((f, k, (p, q))); k += 1
    cfg = [(1, 1), (1, 5), (2, 2), (3, 2), (4, 1)]
    groups = {c: [] for c in cfg}
    for j, x in enumerate(plan):
        g = fw.rng("cfg", prop, j); groups[cfg[int(g.integers(0, len(cfg)))]].append(x)
    for (ranks, threads), xs in groups.items():
        for a in range(0, len(xs), 15):
            cs = [gen(f, i, tier, force) for f, i, force in xs[a:a+15]]
            s = fw.Session(exe, ranks, threads)
            for c in cs: emit(s, c, ranks)
            try: s.run()
            except fw.SessionError as e:
                rep.session_error(e, "session", s); s.clean(); continue
            for c in cs:
                if c["field"] == AXION_MOD: c["ambiguous"] = ambiguous(c)
                judge(rep, s, c, ranks, threads)
            s.clean()
    return rep

def main(tier):
    return run(tier, [SAXION], "C02").finish(1000)
