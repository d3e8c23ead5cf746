"""C01: the same initial field and step sequence on different decompositions, thread counts, block shapes and message schedules."""
import numpy as np
import ref, cases, fw, build
from ref import *
from c02 import cosmo, SAX_EVO

NAME = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod", PAXION: "paxion"}

def case(i, tier):
    g = fw.rng("C01", i, tier)
    field = [SAXION, AXION, PAXION, AXION_MOD, SAXION, AXION][i % 6]
    prec = int([8, 4][(i//6) % 2]); sh = cases.shift(prec, field)
    Ng = int(g.integers(1, 6)) if tier == "thorough" else int(g.choice([1, 1, 2, 2, 3]))
    N = [n for n in (16, 24, 32, 40, 48, 64, 80) if n % (2*sh) == 0 and n//sh >= 2*Ng][int(g.integers(0, 2)) if tier == "thorough" or Ng < 3 else 0]
    tz = 24 if Ng <= 3 else 48
    if field == SAXION:
        q = int(g.choice([QCD0, QCD1, QCD2, QCDC])); evo = int(g.choice(list(SAX_EVO)[:6], p=[.4, .1, .1, .2, .1, .1]))
    else: q = int(g.choice([QCD0, QCD1, QCDC])) if field != PAXION else QCD1; evo = 0
    co, z, delta = cosmo(g, q | PQ1 | evo, N)
    R = co.R(z); shape = (tz, N, N); dt = cases.dtypes(prec, field)
    if field == SAXION:
        m = cases.saxion_field(g, shape, R, "vacuum" if evo or q == QCDC else str(g.choice(["rough", "smooth"])))
        v = 0.2*R/delta*(g.normal(size=shape)+1j*g.normal(size=shape))
    elif field == PAXION:
        m = g.normal(size=shape); v = g.normal(size=shape)
    else:
        m = cases.axion_field(g, shape, R, "rough" if field == AXION else "smooth"); v = 0.2*R/delta*g.normal(size=shape)
        if field == AXION_MOD: m = wrap(m, 2*np.pi*R)
    dz = delta*g.uniform(0.1, 0.3)*(0.25 if evo else 1.)
    if field == PAXION: dz = 0.05*delta**2*np.sqrt(co.mA2(z))*R
    lowmem = int(field == SAXION and not evo & (EVOL_THETA | EVOL_RHO) and g.random() < .2)
    return dict(g=g, field=field, prec=prec, sh=sh, Ng=Ng, N=N, tz=tz, co=co, z=z, dz=float(dz), m=m.astype(dt), v=v.astype(dt), dt=dt, lowmem=lowmem, evo=evo, q=q, n=int(g.integers(1, 4)))

def emit(s, c, ranks, how):
    s.cmd("mark", "case")
    for k in c["co"].cmds(): s.cmd(*k)
    lz = c["tz"]//ranks
    s.cmd("new", c["prec"], c["N"], lz, c["field"], 0, c["Ng"], c["lowmem"], c["z"])
    s.load("m", c["m"]); s.load("v", c["v"])
    s.cmd("poison", "nan", 0 if c["lowmem"] else 1)
    s.cmd("init", PROP_RKN4 | PROP_BASE, c["Ng"])
    if how == "default": s.cmd("blockdefault")
    elif how == "tune": s.cmd("tune")
    else:
        b = cases.blocks(c["g"], c["N"], lz, c["sh"], 1)[0]
        s.cmd("block", *b); how = "block%s" % (b,)
    if how == "tune":   # tuning must leave the field alone
        pass
    s.cmd("prop", c["dz"], c["n"]); h0 = s.cmd("info"); s.cmd("unfold")
    sh = (c["tz"], c["N"], c["N"])
    r = (s.dump("m", c["dt"], sh), s.dump("v", c["dt"], sh), h0, how)
    s.cmd("del")
    return r

def main(tier):
    rep = fw.Report("C01", tier, "one evaluation = one site of m or v after 1-3 steps compared with the 1-rank 1-thread single-block run of the same field; non-trivial = distinct (field, precision, stencil order, ranks, threads, block mode, potential)",
                    ["the 1-rank single-thread run is itself checked against the equations by C02-C04"])
    exe = build.build()["drv"]; n = {"quick": 36, "thorough": 400}[tier]
    cs = [case(i, tier) for i in range(n)]
    cfgs = {"quick": [(2, 3), (4, 1), (3, 2), (1, 7), (6, 1)], "thorough": [(2, 3), (4, 1), (3, 2), (1, 7), (6, 2), (8, 1), (2, 1), (1, 3), (4, 4)]}[tier]
    orders = set()
    for a in range(0, n, 36):
        batch = cs[a:a+36]
        s0 = fw.Session(exe, 1, 1); r0 = [emit(s0, c, 1, "default") for c in batch]
        try: s0.run()
        except fw.SessionError as e: rep.session_error(e, "reference", s0); continue
        for ci, (ranks, threads) in enumerate(cfgs):
            sel = [j for j, c in enumerate(batch) if c["tz"]//ranks >= 2*c["Ng"]]
            for shim in ((None,) if ranks == 1 else ("%d:%d" % (fw.SEED*100+a+ci, 0), "%d:%d" % (fw.SEED*100+a+ci, 3000)) if tier == "thorough" or ranks == 3 else ("%d:%d" % (fw.SEED*100+a+ci, 1500),)):
                s = fw.Session(exe, ranks, threads, env={"DRV_SHIM": shim} if shim else {})
                g = fw.rng("how", a, ci, shim)
                rs = [(j, emit(s, batch[j], ranks, str(g.choice(["default", "random", "random", "tune"], p=[.2, .4, .3, .1])))) for j in sel]
                try: s.run()
                except fw.SessionError as e: rep.session_error(e, "ranks%d" % ranks, s); s.clean(); continue
                for j, (hm, hv, hi, how) in rs:
                    c = batch[j]; b = r0[j]; eps = float(np.finfo(c["dt"]).eps)
                    key = "%s/%s/Ng%d/ranks%d/threads%d" % (NAME[c["field"]], "double" if c["prec"] == 8 else "single", c["Ng"], ranks, threads)
                    det = "%s N=%d tz=%d block=%s q=%d evo=%d n=%d lowmem=%d shim=%s" % (key, c["N"], c["tz"], how, c["q"], c["evo"], c["n"], c["lowmem"], shim)
                    P = 2*np.pi*c["co"].R(s0.at(b[2])["z"])
                    for what, h, hb in (("m", hm, b[0]), ("v", hv, b[1])):
                        x, y = s.get(h).astype(np.complex128 if c["field"] == SAXION else float), s0.get(hb)
                        if c["field"] == AXION_MOD and what == "m": x = y+wrap(x-y, P)
                        if not np.isfinite(y).all(): rep.count("reference_not_finite"); continue
                        rep.close(x, y, 2000*eps, key, what+" "+det, s)
                        if np.array_equal(x, y): rep.count("bitwise_equal")
                        else: rep.count("equal_within_rounding")
                    rep.true(abs(s.at(hi)["z"]-s0.at(b[2])["z"]) <= 1e-13*c["z"], key+"/time", det, s)
                    rep.observe((key, how[:4], c["q"], c["evo"], c["lowmem"]), 2*c["m"].size, dict(case=det))
                if shim:
                    e = s.ev("mpi", 0)
                    rep.true(e["changed"] == 0, "send-buffer-modified-in-flight", "%d of %d ghost messages changed between start and completion (ranks %d)" % (e["changed"], e["starts"], ranks), s)
                    rep.true(e["open"] == 0, "unwaited-request", str(e), s)
                    rep.count("ghost_messages", int(e["starts"])); rep.count("delays_injected", int(e["delays"])); orders.add(e["order"])
                s.clean()
        s0.clean()
    rep.extra["distinct_message_schedules"] = len(orders)
    return rep.finish(10000)
