"""C06: time bookkeeping, null steps, order of convergence and automatic step; runtime monitor over the time / scale factor / field state reported by the library before and after every step."""
import numpy as np
import ref, cases, fw, build
from dataclasses import replace
from ref import *
import c02, c04

FN = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod", PAXION: "paxion"}

# ---------------- A: bookkeeping, null step, tuner, automatic steps
def gen(i, tier):
    g = fw.rng("C06", i, tier); field = [SAXION, AXION, AXION_MOD, PAXION][i % 4]; prec = [8, 4][(i//4) % 2]
    Ng = 1+(i//8) % 4; sh = cases.shift(prec, SAXION if field == SAXION else AXION)
    N = 16 if Ng*2*sh <= 16 else 32 if Ng*2*sh <= 32 else 64
    pot = int(g.choice([QCD1, QCD0, QCDC] + ([QCD2] if field == SAXION else []))) | PQ1
    frw = float(g.choice([1., 1., .5, 2., .7, 1.5])); z = float(np.exp(g.uniform(-2, 2)))
    co = Cosmo(L=float(np.exp(g.uniform(0, 3))), pot=pot, frw=frw)
    if frw == 1. and g.random() < .3: co.grav = float(np.exp(g.uniform(-4, 1)))
    co.indi3 = float(np.exp(g.uniform(-2, 3))); co.nqcd = co.nqcdr = float(g.choice([0., 2., 7., 3.34]))
    co.lam = float(np.exp(g.uniform(0, 9))); co.lz2e = float(g.choice([0., 2., 1.3]))
    k = g.random()
    if k < .35: co.zth = co.R(z)*float(g.uniform(1.001, 1.3)); co.zre = float(g.choice([1e30, co.zth*1.2]))
    elif k < .55: co.zth = co.R(z)*float(g.uniform(.3, .99)); co.zre = co.zth*float(g.choice([1.1, 2., 1e9]))
    c = dict(g=g, i=i, field=field, prec=prec, N=N, Ng=Ng, co=co, z=z, wdz=float(g.choice([.3, .8, 1.3])))
    c["spec"] = bool(field in (SAXION, AXION) and Ng == 1 and g.random() < .4)
    return c

def wmax(c, z):
    co = c["co"]; w2 = 12*(c["N"]/co.L)**2; mA2 = co.mA2(z)*co.R(z)**2
    if c["field"] == PAXION: return w2/(np.sqrt(w2+mA2)+np.sqrt(mA2))
    return np.sqrt(w2+max(mA2, 2*co.lamP(z)*co.R(z)**2 if c["field"] == SAXION else 0))

def emitA(s, c, ranks):
    g, N, prec, co, f = c["g"], c["N"], c["prec"], c["co"], c["field"]
    lz = c["lz"] = 2*c["Ng"]+int(g.integers(0, 3)); shape = c["shape"] = (lz*ranks, N, N); dt = cases.dtypes(prec, f if f in (SAXION,) else AXION)
    r = lambda a: (a*(g.normal(size=shape)+(1j*g.normal(size=shape) if f == SAXION else 0))).astype(dt)
    R = co.R(c["z"]); m, v = (r(.3*R) if f != SAXION else (R*np.exp(1j*g.normal(size=shape))).astype(dt)), r(.2*R)
    for x in co.cmds(): s.cmd(*x)
    s.cmd("set", "wdz", c["wdz"])
    s.cmd("new", prec, N, lz, f, 0, c["Ng"], 0, c["z"]); s.load("m", m); s.load("v", v)
    s.cmd("init", PROP_RKN4 | (PROP_SPEC if c["spec"] else PROP_BASE), -1 if c["spec"] else c["Ng"])
    c["e"] = []
    snap = lambda: (s.cmd("unfold"), s.dump("m", dt, shape), s.dump("v", dt, shape), s.cmd("info"))[1:]
    c["m"], c["v"] = m, v
    c["s0"] = snap(); s.cmd("prop", 0., 1); c["s1"] = snap()
    if not c["spec"]: s.cmd("tune"); c["s2"] = snap()
    c["zs"] = [float(c["z"]*np.exp(g.uniform(-.5, 1.5))) for _ in range(12)]
    if co.zth < 1e29:        # start times whose automatic step crosses the saturation
        zc = zof(co, co.zth)
        for fr in (1e-9, 1e-6, 1e-3, .02, .2, .6, .98, 1.02): c["zs"].append(float(zc-fr*c["wdz"]/wmax(c, zc)))
        c["zs"] = [x for x in c["zs"] if x > 0]
    c["id1"] = s.cmd("dzsize", *c["zs"]); c["f2"] = float(g.choice([.5, .25, .125])); s.cmd("set", "wdz", c["wdz"]*c["f2"]); c["id2"] = s.cmd("dzsize", *c["zs"]); s.cmd("set", "wdz", c["wdz"])
    c["steps"] = []; small = min(.1/wmax(c, c["z"]), .02*c["z"])
    for k in range(4):
        d = float(small*np.exp(g.uniform(-6, 0))); n = int(g.choice([1, 2])); s.cmd("prop", d, n); c["steps"].append((d, n, s.cmd("info")))
    s.cmd("propauto", 3); c["ie"] = s.cmd("info"); s.cmd("del")

def zof(co, R):
    if co.frw == 1 and co.grav > 0: return 2*(np.sqrt(1+co.grav*R)-1)/co.grav
    return R**(1/co.frw)

def judgeA(rep, s, c, lab, key):
    co = c["co"]; ok = lambda z, e: (rep.close(e["z"], z, 1e-13, key+"-time", lab, s), rep.close(e["R"], co.R(e["z"]), 1e-13, key+"-R", lab, s))
    first = [s.get(c["s0"][0]), s.get(c["s0"][1])]
    rep.true(np.array_equal(first[0], c["m"]) and np.array_equal(first[1], c["v"]), key+"-load", lab, s)
    for what in ("s1", "s2"):
        if what not in c: continue
        nm = "zero-step" if what == "s1" else "tuning"
        m, v, e = s.get(c[what][0]), s.get(c[what][1]), s.at(c[what][2])
        rep.true(np.array_equal(m, first[0]) and np.array_equal(v, first[1]), key+"-"+nm, "%s changed the field by %g %g: %s" % (nm, np.abs(m-first[0]).max(), np.abs(v-first[1]).max(), lab), s)
        rep.true(e["z"] == s.at(c["s0"][2])["z"] and e["R"] == s.at(c["s0"][2])["R"], key+"-"+nm, "%s moved time or scale factor: %s" % (nm, lab), s)
    ok(c["z"], s.at(c["s0"][2]))
    z = c["z"]
    for d, n, h in c["steps"]: z += n*d; ok(z, s.at(h))
    au = [e for e in s.events if e.get("ev") == "auto"]
    rep.true(len(au) == 3, key+"-auto", lab, s)
    for e in au:
        rep.true(e["z0"] == z or abs(e["z0"]-z) < 1e-13*z, key+"-auto", lab, s); z = e["z0"]+e["dz"]
        rep.close(e["z1"], z, 1e-14, key+"-auto", lab, s)
        rep.true(0 < e["dz"] <= c["wdz"]/wmax(c, e["z0"])*(1+1e-9), key+"-dz-bound", "z %r dz %r bound %r: %s" % (e["z0"], e["dz"], c["wdz"]/wmax(c, e["z0"]), lab), s)
    ok(z, s.at(c["ie"]))
    a, b = s.at(c["id1"]), s.at(c["id2"]); rep.true(len(a["at"]) == len(b["at"]) == len(c["zs"]), key+"-dz", lab, s)
    for t, d1, d2 in zip(c["zs"], a["at"], b["at"]):
        w = wmax(c, t); what = "z %r step %r (x%g: %r) bound %r: %s" % (t, d1, c["f2"], d2, c["wdz"]/w, lab)
        rep.true(np.isfinite(d1) and d1 > 0 and np.isfinite(d2) and d2 > 0, key+"-dz-positive", what, s)
        rep.true(d1 <= c["wdz"]/w*(1+1e-9) and d2 <= c["f2"]*c["wdz"]/w*(1+1e-9), key+"-dz-bound", what, s)
        cross = co.R(t) < co.zth and co.R(t+c["wdz"]/w) > co.zth*(1-1e-9)
        if cross and abs(d2-c["f2"]*d1) > 1e-12*d2:
            rep.count("steps_shortened_at_saturation")
            R1 = co.R(t+d1); full = co.R(t+c["wdz"]/w)
            rep.true(R1 >= co.zth*(1-1e-12) and R1 <= co.zth+.01*(full-co.zth)+1e-12*co.zth if full > co.zth*(1+1e-9) else True, key+"-dz-crossing", "R after %r saturation %r: %s" % (R1, co.zth, what), s)
        else: rep.close(d2, c["f2"]*d1, 1e-12, key+"-dz-proportional", what, s)
    rep.count("automatic_steps", 3+2*len(c["zs"]))
    rep.observe((key, c["Ng"], co.frw, co.grav > 0, co.zth < 1e29, co.pot, c["spec"]), 1, sample=lab)

# ---------------- B: order of convergence towards the continuous-time solution
def genB(i, tier):
    g = fw.rng("C06b", i, tier); field = [SAXION, AXION][i % 2]; spec = (i//2) % 3 == 2; Ng = 1 if spec else 1+(i//2) % 3
    N = 16 if Ng > 1 else 8
    co = Cosmo(L=float(g.uniform(2, 8)), pot=int(g.choice([QCD1, QCD0]+([QCD2] if field == SAXION else []))) | PQ1, frw=float(g.choice([1., .5, 2.])))
    z = float(g.uniform(1., 3.)); R = co.R(z); d = co.L/N
    co.nqcd = co.nqcdr = float(g.choice([0., 2., 4.])); co.indi3 = float(g.uniform(.2, 1.))*np.sqrt(12)/d/R/np.sqrt(R**co.nqcd)
    if field == SAXION: co.lz2e = float(g.choice([0., 2.])); co.lam = float(g.uniform(.2, 1.))*6/d**2/R**2*R**co.lz2e
    return dict(g=g, i=i, field=field, spec=spec, Ng=Ng, N=N, co=co, z=z, T=float(g.uniform(.15, .25))*z)

def emitB(s, c, ranks):
    g, N, co, f = c["g"], c["N"], c["co"], c["field"]; lz = c["lz"] = max(4, 2*c["Ng"]); shape = c["shape"] = (lz*ranks, N, N)
    R = co.R(c["z"]); dt = np.complex128 if f == SAXION else np.float64
    if f == SAXION: m = R*(1+.2*cases.smooth(g, shape, 2))*np.exp(1j*cases.smooth(g, shape, 2)); v = .3*R*(cases.smooth(g, shape, 2)+1j*cases.smooth(g, shape, 2))
    else: m, v = R*cases.smooth(g, shape, 2), .5*R*cases.smooth(g, shape, 2)
    c["m"], c["v"] = m.astype(dt), v.astype(dt)
    w = np.sqrt((3*np.pi**2 if c["spec"] else 16)*(N/co.L)**2+max(co.mA2(c["z"])*R*R, 2*co.lamP(c["z"])*R*R)); c["n0"] = n0 = max(3, int(np.ceil(c["T"]*w/1.4)))
    for x in co.cmds(): s.cmd(*x)
    s.cmd("new", 8, N, lz, f, 0, c["Ng"], 0, c["z"]); s.cmd("init", PROP_RKN4 | (PROP_SPEC if c["spec"] else PROP_BASE), -1 if c["spec"] else c["Ng"])
    c["h"] = []
    for k in (1, 2, 4):
        s.cmd("unfold"); s.cmd("z", c["z"]); s.load("m", c["m"]); s.load("v", c["v"]); s.cmd("prop", c["T"]/(n0*k), n0*k); s.cmd("unfold")
        c["h"].append((s.dump("m", dt, shape), s.dump("v", dt, shape), s.cmd("info")))
    s.cmd("del")

def judgeB(rep, s, c, lab, key):
    co, f = c["co"], c["field"]
    lap = (lambda m: lap_exact(m, co.L)) if c["spec"] else (lambda m: lap_fd(m, c["Ng"], co.L/c["N"]))
    acc = (lambda m, z: saxion_stage(m, 0*m, z, 1., 0., 1., co, lap(m))[1]) if f == SAXION else (lambda m, z: axion_acc(m, z, co, lap(m)))
    m, v, z = c["m"], c["v"], c["z"]; n = 24*c["n0"]; h = c["T"]/n     # classical fourth order Runge-Kutta, independent of the coefficients under test
    for _ in range(n):
        k1, a1 = v, acc(m, z); k2, a2 = v+h/2*a1, acc(m+h/2*k1, z+h/2); k3, a3 = v+h/2*a2, acc(m+h/2*k2, z+h/2); k4, a4 = v+h*a3, acc(m+h*k3, z+h)
        m, v, z = m+h/6*(k1+2*k2+2*k3+k4), v+h/6*(a1+2*a2+2*a3+a4), z+h
    sc, sv = np.abs(c["m"]).max(), np.abs(c["v"]).max()+np.abs(acc(c["m"], c["z"])).max()*c["T"]
    er = []
    for hm, hv, hi in c["h"]:
        er.append(max(np.abs(s.get(hm)-m).max()/sc, np.abs(s.get(hv)-v).max()/sv)); rep.close(s.at(hi)["z"], c["z"]+c["T"], 1e-12, key+"-time", lab, s)
    floor = 4e-12
    if er[1] < 3*floor: rep.count("order_not_measurable"); return
    p = np.log2(er[0]/max(er[2], 1e-16))/2 if er[2] > floor else np.log2(er[0]/er[1])
    rep.true(er[1] < 2e-2 and p >= 3.3, key+"-order", "observed order %.2f, errors %s: %s" % (p, er, lab), s)
    rep.extra["lowest_order_seen"] = min(rep.extra.get("lowest_order_seen", 99.), float(p)); rep.count("orders_measured")
    rep.observe((key, "order", co.frw, co.pot, co.nqcd), 1, sample=lab+" order %.2f errors %s" % (p, er))

def main(tier):
    rep = fw.Report("C06", tier, "one evaluation = one history (null step, tuning, manual and automatic steps) or one measured convergence order; distinct = (field, precision, stencil, background, potential, kind)",
                    ["convergence is measured for undamped smooth double precision fields against an independent classical Runge-Kutta integration"])
    exe = build.build()["drv"]; todo = []
    for kind, n in (("A", {"quick": 64, "thorough": 1200}[tier]), ("B", {"quick": 24, "thorough": 240}[tier])):
        for i in range(n):
            c = (gen if kind == "A" else genB)(i, tier); ranks = int(c["g"].choice([1, 2, 4]))
            s = fw.Session(exe, ranks, int(c["g"].choice([1, 2])), N=c["N"]); (emitA if kind == "A" else emitB)(s, c, ranks); todo.append((kind, s, c, ranks))
    fw.run_all([t[1] for t in todo], 6)
    for kind, s, c, ranks in todo:
        key = FN[c["field"]] + ("-spec" if c["spec"] else "")
        lab = "%s %s prec %s Ng %d N %d lz %d ranks %d z %r %s" % (kind, key, c.get("prec", 8), c["Ng"], c["N"], c["lz"], ranks, c["z"], c["co"])
        if s.err: rep.session_error(s.err, key, s); continue
        (judgeA if kind == "A" else judgeB)(rep, s, c, lab, key); s.clean()
    return rep.finish(60)
