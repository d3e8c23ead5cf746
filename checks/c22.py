"""C22: string masks (ball, smoothed, diffused, field-weighted) against their definition from the detected plaquettes, with the exported mask and its spectrum."""
import sys
import numpy as np
import ref, cases, fw, build
from ref import *
from c02 import cosmo
import c10, c12, c22b
VIL, VIL2, REDO, GAUS, DIFF, BALL = 2, 4, 8, 16, 32, 64
NAME = {VIL: "vil", VIL2: "vil2", REDO: "redo", GAUS: "gauss", DIFF: "diff", BALL: "ball"}
MASK, ANTI = 512, 1024

def vertices(sd):
    """the four corners of every pierced plaquette"""
    p = np.zeros(sd.shape, bool); f = lambda bit: (sd & bit) != 0
    for bit, u, v in ((9, "x", "y"), (18, "y", "z"), (36, "z", "x")):
        b = f(bit); a, c = c10.AX[u], c10.AX[v]
        for q in (b, np.roll(b, 1, a), np.roll(b, 1, c), np.roll(np.roll(b, 1, a), 1, c)): p |= q
    return p

def nb6(p): return [np.roll(p, s, a) for a in range(3) for s in (1, -1)]

def want(c, sd, m):
    """(mask kept in the flags or None, exported mask (1 outside strings), sites which may go either way)"""
    r = c["r"]; sh = sd.shape; pre = vertices(sd); none = np.zeros(sh, bool)
    if c["mask"] in (VIL, VIL2):
        w = np.abs(m.astype(complex)-c["sas"])/c["R"]; return None, w**(1 if c["mask"] == VIL else 2), none
    if c["mask"] == BALL:
        out = pre.copy(); k = int(np.floor(r)); pts = [(z, y, x) for z in range(-k, k+1) for y in range(-k, k+1) for x in range(-k, k+1) if z*z+y*y+x*x <= r*r]
        for d in pts: out |= np.roll(pre, d, (0, 1, 2))
        return out, 1.-out, none
    if c["mask"] == DIFF:
        core = pre.copy(); f = pre.astype(float); it = int(r*r); k = int(r)
        for n in range(it+1):
            if n < k: core = core | np.any(nb6(f > 0), axis=0); f = core.astype(float)
            else: f = np.where(core, 1., sum(nb6(f))/6.)
        return core | (f > .5), 1-f, (np.abs(f-.5) < c["eps"]*50) & ~core
    kz, ky, kx, k2 = c12.ints(sh); g = c["calib"]; rs = r*g if g > 0 else r
    f = np.fft.ifftn(np.fft.fftn(pre.astype(float))*np.exp(-.5*np.pi**2*rs*rs/sh[1]**2*k2)).real
    if g > 0: cut = 2.5*4/(2*np.pi*(g*r)**2)*np.exp(-2./g**2)
    else: cut = .21/r**2 if r > 8 else ((.42772052-.05299264*r) if r < 4 else (.22619714-.00363601*r))/r**2
    amb = np.abs(f-cut) < c["eps"]*30*max(1., cut)
    return f > cut, (1.-(f > cut) if c["mask"] == REDO else np.where(f > cut, 0., 1-f/cut)), amb

def case(i, tier):
    g = fw.rng("C22", i, tier); prec = int([8, 4][i % 2]); mask = [REDO, BALL, DIFF, REDO, BALL, GAUS, DIFF, VIL, VIL2][(i//2) % 9]
    ranks, threads = [(1, 3), (2, 3), (4, 2), (2, 1), (3, 2)][int(g.integers(0, 5))]
    N = int({1: [8, 12, 16, 20], 2: [8, 12, 16, 20], 3: [12, 24], 4: [8, 16, 20]}[ranks][int(g.integers(0, 2 if ranks == 3 else 3))])
    shf = cases.shift(prec, SAXION)
    while N % shf or N % ranks: N += 1
    lz = N//ranks
    if mask in (BALL, DIFF, VIL, VIL2) and g.random() < .4: lz = max(2, int(lz*g.choice([.5, 1.5]))); lz += (lz*ranks) % 2
    Ng = int(g.choice([1, 1, 2]))
    while N*N*Ng < lz*N or lz < Ng: Ng += 1
    if lz < 2*Ng: lz, Ng = N//ranks, 1
    sh = (lz*ranks, N, N); co, z, delta = cosmo(g, QCD1 | PQ1, N); R = co.R(z); dt = cases.dtypes(prec, SAXION)
    kind = ["loop", "pair", "ring", "face", "smooth"][int(g.integers(0, 5))]; m = c10.field(g, sh, R, kind).astype(dt)
    c = dict(i=i, g=g, prec=prec, mask=mask, ranks=ranks, threads=threads, N=N, lz=lz, Ng=Ng, shape=sh, co=co, z=z, R=R, m=m, kind=kind, eps=2e-16 if prec == 8 else 1e-7, out=int(g.choice([MASK, ANTI])), nbs=-1)
    c["calib"] = float(g.choice([1.25, 1.25, .9, -1.])) if mask in (REDO, GAUS) else 1.25
    if mask == BALL: c["r"] = float(g.choice([1., 1.5, 2., 2.3, 3., 3.9]))
    elif mask == DIFF: c["r"] = float(g.choice([1., 2., 2.5, 3.]))
    else: c["r"] = float(g.choice([1.5, 2., 3., 5., 9.]))
    if mask == BALL: c["r"] = min(c["r"], lz)
    a = co.mA2(z)/co.lamP(z); q = np.roots([1, 0, -1, -a]); c["sas"] = (q[abs(q.imag) < 1e-9].real.max()-1)*R
    c["st"] = g.integers(0, 256, sh).astype(np.uint8); c["twice"] = bool(g.random() < .5); c["folded"] = bool(g.random() < .5)
    ok = [BALL, DIFF, VIL2]+([REDO, GAUS] if lz*ranks == N else [])
    c["first"] = [(int(q), 1.5 if q in (BALL, DIFF) else 2.) for q in g.choice(ok, int(g.integers(1, 3)))] if c["twice"] else []
    if c["first"] and g.random() < .5: c["first"][-1] = (mask, c["first"][-1][1])
    return c

def contend(i, tier):
    """stacks of defects along z just above a rank boundary: every thread raises the same ghost counters at once"""
    g = fw.rng("C22", "contend", i, tier); N, ranks, lz = 64, 2, 16; r = int(g.integers(5, 8)); sd = np.zeros((lz*ranks, N, N), np.uint8); pre = np.zeros(sd.shape, bool)
    h = int(g.integers(3, r)); top = bool(g.integers(2))
    for y in range(int(g.integers(4)), N, 8):
        for x in range(int(g.integers(4)), N, 8): pre[lz-h:lz, y, x] |= top; pre[lz:lz+h, y, x] |= not top
    sd[pre] = 9; v = vertices(sd)
    k = r; out = v.copy()
    for z in range(-k, k+1):
        for y in range(-k, k+1):
            for x in range(-k, k+1):
                if z*z+y*y+x*x <= r*r: out |= np.roll(v, (z, y, x), (0, 1, 2))
    return dict(N=N, ranks=ranks, lz=lz, r=r, sd=sd, out=out, h=h, top=top)

def main(tier):
    rep = fw.Report("C22", tier, "one evaluation = one site of one mask; distinct = (mask, precision, ranks, threads, grid, radius, kind of field)",
                    ["the plaquettes recorded by the string detection (judged by C10) are what a mask starts from; smoothed masks on cubic boxes"])
    exe = build.build()["drv"]; n = {"quick": 306, "thorough": 4000}[tier]; todo = []
    for i in range(n):
        c = case(i, tier); s = fw.Session(exe, c["ranks"], c["threads"], args=["--ng0calib", str(c["calib"])]); todo.append((s, c))
        for q in c["co"].cmds(): s.cmd(*q)
        s.cmd("new", c["prec"], c["N"], c["lz"], SAXION, 0, c["Ng"], 0, c["z"]); s.cmd("poison", "1e5", 1); s.load("m", c["m"]); s.load("v", c["m"]); s.load("str", c["st"])
        s.cmd("strings"); c["sd0"] = s.dump("str", np.uint8, c["shape"])
        if c["folded"]: s.cmd("fold")
        for q, r in c["first"]: s.cmd("masker", r, q, MASK, -1)
        c["h"] = s.cmd("masker", c["r"], c["mask"], c["out"], c["nbs"])
        c["sd"] = s.dump("str", np.uint8, c["shape"]); c["w"] = s.dump("m2r", c["m"].real.dtype, c["shape"]); c["mm"] = s.dump("m", c["m"].dtype, c["shape"]); c["inf"] = s.cmd("info"); s.cmd("del")
    races = []; reps = 300
    for i in range({"quick": 6, "thorough": 60}[tier]):
        c = contend(i, tier); s = fw.Session(exe, 2, 4); races.append((s, c)); co, z, delta = cosmo(fw.rng("C22", i), QCD1 | PQ1, c["N"])
        for q in co.cmds(): s.cmd(*q)
        s.cmd("new", 4, c["N"], c["lz"], SAXION, 0, 1, 0, z); c["dump"] = []; s.load("m", np.ones(c["sd"].shape, np.complex64))
        for k in range(reps): s.load("str", c["sd"]); s.cmd("setsd", 1); s.cmd("masker", c["r"], BALL, MASK, -1); c["dump"].append(s.dump("str", np.uint8, c["sd"].shape))
    fw.run_all([t[0] for t in todo])
    fw.run_all([t[0] for t in races])
    for s, c in races:
        det = "r=%d stack of %d slices %s a rank boundary" % (c["r"], c["h"], "below" if c["top"] else "above")
        if s.err: rep.count("failed: "+det); rep.session_error(s.err, "ball/contended", s); s.clean(); continue
        got = [((s.get(h) & 128) != 0) for h in c["dump"]]; bad = sum(not np.array_equal(q, c["out"]) for q in got)
        rep.true(bad == 0, "ball/contended", "%d of %d identical masks differ from the definition (%d sites expected, %s found); %s" % (bad, len(got), c["out"].sum(), sorted({int(q.sum()) for q in got}), det), s)
        rep.extra["contended_masks"] = rep.extra.get("contended_masks", 0)+len(got); rep.observe(("contended", c["r"], c["h"], c["top"]), c["out"].size); s.clean()
    for s, c in todo:
        key = NAME[c["mask"]]+("/double" if c["prec"] == 8 else "/single"); det = "case %d N=%d lz=%d ranks=%d threads=%d Ng=%d r=%g calib=%g %s after masks %s" % (c["i"], c["N"], c["lz"], c["ranks"], c["threads"], c["Ng"], c["r"], c["calib"], c["kind"], c["first"])
        if s.err: rep.count("failed: "+det); rep.session_error(s.err, key, s); s.clean(); continue
        sd0, sd, w = s.get(c["sd0"]), s.get(c["sd"]), s.get(c["w"]).astype(float)
        flag, ex, amb = want(c, sd0 & 127, c["m"]); tol = 1e-10 if c["prec"] == 8 else 3e-5
        if c["out"] == ANTI: w = 1-w
        rep.true(np.array_equal(s.get(c["mm"]), c["m"]), key+"/field", "the mask changed the field; "+det, s)
        if flag is not None:
            bad = ((sd & 128) != 0) != flag; bad &= ~amb
            rep.true(not bad.any(), key+"/flags", "%d of %d sites flagged wrongly (%d masked, %d expected), first %s; %s" % (bad.sum(), bad.size, ((sd & 128) != 0).sum(), flag.sum(), tuple(np.argwhere(bad)[0]) if bad.any() else "", det), s)
            rep.true(np.array_equal(sd & 127, sd0 & 127), key+"/defects", "recorded defects changed; "+det, s)
            rep.extra["masked_sites"] = rep.extra.get("masked_sites", 0)+int(flag.sum()); rep.extra["undecided_sites"] = rep.extra.get("undecided_sites", 0)+int(amb.sum())
        rep.close(np.where(amb, ex, w), ex, tol*(30 if c["mask"] == GAUS else 1), key+"/export", det, s, scale=max(1., np.max(np.abs(ex))))
        if not amb.any():
            acc = c12.Acc(c["shape"], c["nbs"], c["co"].L); acc.add("P", ex, c["eps"]*50); acc.out["P"] = tuple(2*q for q in acc.out["P"])
            if c["out"] == MASK or True: acc.check(rep, s.at(c["h"]), key+"/spectrum", det, s, 1e-9 if c["prec"] == 8 else 1e-3)
        inf = s.at(c["inf"]); rep.true(inf["m2"] == c["out"], key+"/status", "status of the auxiliary field is %s; %s" % (inf["m2"], det), s)
        rep.observe((key, c["shape"], c["ranks"], c["threads"], c["r"], c["calib"], c["kind"], tuple(q for q, r in c["first"]), c["folded"]), w.size); s.clean()
    c22b.run(rep, tier, sys.modules[__name__])
    return rep.finish(50000)
