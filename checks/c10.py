"""C10: strings, walls, positions, flags, length and velocity against a plaquette-by-plaquette winding computation."""
import itertools
import numpy as np
import ref, cases, fw, build
from ref import *
from c02 import cosmo

AX = {"x": 2, "y": 1, "z": 0}
# plaquette name -> (first axis, second axis): corners m, m+u, m+u+v, m+v
PL = [("XY", "x", "y", 1, 8), ("YZ", "y", "z", 2, 16), ("ZX", "z", "x", 4, 32)]
OFF = {"XY": (1, 1, 0), "YZ": (0, 1, 1), "ZX": (1, 0, 1)}

def sh(a, *axes):
    for u in axes: a = np.roll(a, -1, AX[u])
    return a

def oracle(m):
    """signed winding of each plaquette (reported sign: clockwise positive), walls of each site, and the smallest margin of any decision"""
    th = np.angle(m.astype(np.complex128)); W = {}
    d = {}
    marg = np.inf
    for u in AX:
        b = sh(th, u)-th; d[u] = wrap(b, 2*np.pi); marg = min(marg, np.min(np.abs(np.pi-np.abs(d[u]))))
        d[u, "wall"] = np.abs(b) > np.pi
    for nm, u, v, p, q in PL:
        w = (d[u]+sh(d[v], u)-sh(d[u], v)-d[v])/(2*np.pi)
        W[nm] = -np.rint(w).astype(int)
    marg = min(marg, np.min(np.abs(np.sin(th))), 1.)
    return W, d["x", "wall"] | d["y", "wall"] | d["z", "wall"], marg

def field(g, shape, R, kind):
    tz, N, _ = shape; z, y, x = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
    if kind == "lattice":	# exactly representable values, no ties
        m = (2*g.integers(-400, 400, shape)+1)+1j*(2*g.integers(-400, 400, shape)+1)
        return m.astype(np.complex128)
    if kind == "pair":		# straight strings through the periodic faces
        ax = int(g.integers(0, 3)); a, b, na, nb = [(x, y, N, N), (y, z, N, tz), (z, x, tz, N)][ax]
        c = g.uniform(0, 1, 4); f = 1.+0j
        f = np.sin(np.pi*(a/na-c[0]))**2-np.sin(np.pi*(c[1]*.4+.05))**2+1j*(np.sin(np.pi*(b/nb-c[2]))**2-np.sin(np.pi*(c[3]*.4+.05))**2)
        return R*f*np.exp(1j*g.uniform(0, 6))+1e-4*R*(g.normal(size=shape)+1j*g.normal(size=shape))
    if kind == "loop":
        r = g.uniform(1.2, N/3); c = g.uniform(0, N, 2); cz = g.uniform(0, tz)
        px, py, pz = (wrap(x-c[0], N), wrap(y-c[1], N), wrap(z-cz, tz)); k = int(g.integers(0, 3)); p = [px, py, pz]; p = p[k:]+p[:k]
        rho = np.hypot(p[0], p[1])-r
        return R*(rho+1j*p[2]+1e-5)*np.exp(1j*g.uniform(0, 6))
    if kind == "face":		# activity only next to the slab and box faces
        m = R*(1+.1*g.normal(size=shape))*np.exp(1j*g.uniform(-.5, .5, shape))
        m[-1] = R*np.exp(1j*g.uniform(-np.pi, np.pi, shape[1:])); m[:, -1] *= np.exp(1j*g.uniform(-np.pi, np.pi, m[:, -1].shape)); m[:, :, -1] *= np.exp(1j*g.uniform(-np.pi, np.pi, m[:, :, -1].shape))
        return m
    return cases.saxion_field(g, shape, R, kind)

def case(i, tier):
    g = fw.rng("C10", i, tier); prec = int([8, 4][i % 2]); shf = cases.shift(prec, SAXION)
    ranks, threads = [(1, 1), (2, 3), (3, 2), (4, 2), (1, 4)][int(g.integers(0, 5))]
    Ng = int(g.choice([1, 1, 2])); N = int(shf*g.choice([2, 3, 4, 5, 6, 8])); N = max(N, 4); lz = int(g.integers(Ng, 8)); shape = (lz*ranks, N, N)
    while N*N*Ng < lz*N: Ng += 1
    if lz < Ng: lz = Ng; shape = (lz*ranks, N, N)
    co, z, delta = cosmo(g, QCD1 | PQ1, N); R = co.R(z); dt = cases.dtypes(prec, SAXION)
    kind = ["lattice", "smooth", "rough", "pair", "loop", "face", "ring"][(i//2) % 7]
    m = field(g, shape, R, kind).astype(dt)
    for k in range(40):
        W, wall, marg = oracle(m)
        if marg > (1e-9 if prec == 8 else 2e-5): break
        m = (m.astype(np.complex128)*(1+0j if False else np.exp(1j*g.uniform(0, 6)))).astype(dt) if kind != "lattice" else field(g, shape, R, kind).astype(dt)
    v = (R*(g.normal(size=shape)+1j*g.normal(size=shape))).astype(dt)
    st = g.integers(0, 256, shape).astype(np.uint8)
    return dict(g=g, i=i, prec=prec, ranks=ranks, threads=threads, Ng=Ng, N=N, lz=lz, shape=shape, co=co, z=z, R=R, delta=delta, m=m, v=v, st=st, W=W, wall=wall, marg=marg, kind=kind, fold=int(g.integers(0, 2)), dt=dt)

def cross(m, mu, mv, muv):
    """where Re=0 and Im=0 cross inside the plaquette, coordinates along u and v (linear interpolation on the edges)"""
    out = []
    P = [m, mu, muv, mv]; C = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
    lines = []
    for f in (np.real, np.imag):
        pts = []
        for a in range(4):
            b = (a+1) % 4; fa, fb = f(P[a]), f(P[b])
            if fa*fb <= 0:
                t = fa/(fa-fb); pts.append((C[a][0]+t*(C[b][0]-C[a][0]), C[a][1]+t*(C[b][1]-C[a][1])))
        lines.append(pts)
    if len(lines[0]) != 2 or len(lines[1]) != 2: return .5, .5, 1e9
    (a, b), (c, d) = lines; r = (b[0]-a[0], b[1]-a[1]); s = (d[0]-c[0], d[1]-c[1]); den = r[0]*s[1]-r[1]*s[0]
    t = ((c[0]-a[0])*s[1]-(c[1]-a[1])*s[0])/den
    return a[0]+t*r[0], a[1]+t*r[1], abs(den)

def length(m, W):
    """string length: positions on the faces of each cube, averaged over all pairings; also the conditioning of the worst position"""
    m = m.astype(np.complex128); tz, N, _ = m.shape; pos = {}; worst = 1e9
    for nm, u, v, p, q in PL:
        for (k, j, i) in np.argwhere(W[nm] != 0):
            def at(*s):
                a = [k, j, i]
                for w in s: a[AX[w]] += 1
                return m[a[0] % tz, a[1] % N, a[2] % N]
            du, dv, den = cross(at(), at(u), at(v), at(u, v)); worst = min(worst, den)
            o = {"x": 0., "y": 0., "z": 0.}; o[u] += du; o[v] += dv; pos[nm, k, j, i] = (o["x"], o["y"], o["z"])
    L = 0.; cubes = {}
    for (nm, k, j, i), o in pos.items():
        nrm = {"XY": "z", "YZ": "x", "ZX": "y"}[nm]
        cubes.setdefault((k, j, i), []).append(o)
        c = [k, j, i]; c[AX[nrm]] -= 1; c = (c[0] % tz, c[1] % N, c[2] % N)
        e = list(o); e["xyz".index(nrm)] += 1.; cubes.setdefault(c, []).append(tuple(e))
    odd = 0
    for c, P in cubes.items():
        n = len(P)
        if n % 2: odd += 1; continue
        L += sum(np.linalg.norm(np.subtract(a, b)) for a, b in itertools.combinations(P, 2))/(n-1)
    return L, worst, odd, sum(len(P) == 6 for P in cubes.values()), sum(len(P) == 4 for P in cubes.values())

def gamma(c):
    m = c["m"].astype(np.complex128); v = c["v"].astype(np.complex128); co, z, R = c["co"], c["z"], c["R"]; H = co.Rp(z); cc = 0.41238; ms = 2*co.lamP(z)
    ph = m/R; dp = (v-H*m)/R**2
    q = np.abs(dp)**2*(1+np.abs(ph)**2/(8*cc*cc))/(ms*cc*cc)+(2*(np.conj(ph)*dp).real)**2/(16*ms*cc**4)
    S = [0., 0., 0., 0.]
    for nm, u, w, a, b in PL:
        g2 = ((q+sh(q, u)+sh(q, w)+sh(q, u, w))/4)[c["W"][nm] != 0]; g = np.sqrt(1+g2)
        S[0] += g.sum(); S[1] += (g*np.sqrt(g2/(1+g2))).sum(); S[2] += (g*g2/(1+g2)).sum(); S[3] += (1+g2).sum()
    return S[0], S[1]/S[0], S[2]/S[0], S[3]/S[0]

def strene(c, mask):
    m = c["m"].astype(np.complex128); v = c["v"].astype(np.complex128); co, z, R, d = c["co"], c["z"], c["R"], c["delta"]; H = co.Rp(z)
    al = co.mA2(z)/co.lamP(z); r = np.roots([1., 0., -1., -al]); r = max(r[np.abs(r.imag) < 1e-7].real)-1 	# minimum of the tilted potential
    n = m-r*R; w = v-H*m
    gr = sum(np.abs(np.roll(m, -1, a)-m)**2 for a in range(3)); a = np.abs(n)
    pot = .25*co.lamP(z)*(np.abs(m)**2/R**2-1)**2
    tot = (.5*np.abs(w)**2/R**4+.5*gr/(R*d*R)**2+pot)
    ra = (w/n).imag**2/R**2
    rs = .5*((w/n).real*a)**2/R**4+.5*sum((np.roll(a, -1, x)-a)**2 for x in range(3))/(R*d*R)**2+pot
    o = ~mask; A, S_ = ra[o].mean(), rs[o].mean(); x = a*a/R**2
    return dict(a=A, s=S_, str=tot.mean()-A-S_, aV=(x*ra).mean(), sV=(x*rs).mean(), strV=tot.mean()-(x*ra).mean()-(x*rs).mean(), nout=float(o.sum()), cond=float(np.max(np.abs(m)/np.maximum(a, 1e-30)))), tot.mean()+A+S_, tot.mean()+(x*ra).mean()+(x*rs).mean()

def main(tier):
    rep = fw.Report("C10", tier, "one evaluation = one plaquette or site flag compared with the winding of the stored field; distinct = (kind of field, precision, ranks, threads, folded)")
    exe = build.build()["drv"]; n = {"quick": 84, "thorough": 1500}[tier]
    cs = [case(i, tier) for i in range(n)]; todo = []; by = {}
    for c in cs: by.setdefault((c["ranks"], c["threads"]), []).append(c)
    for (ranks, threads), l in by.items():
        for part in [l[k:k+10] for k in range(0, len(l), 10)]:
            s = fw.Session(exe, ranks, threads); todo.append((s, part))
            for c in part:
                for k in c["co"].cmds(): s.cmd(*k)
                s.cmd("new", c["prec"], c["N"], c["lz"], SAXION, 0, c["Ng"], 0, c["z"]); s.load("m", c["m"]); s.load("v", c["v"]); s.load("str", c["st"])
                s.cmd("poison", "nan", 1)
                if c["fold"]: s.cmd("fold")
                c["h"] = s.cmd("strings"); c["hs"] = s.dump("str", np.uint8, c["shape"])
                if c["fold"]: s.cmd("unfold"); s.cmd("fold")
                s.cmd("poison", "nan", 1); c["pf"] = s.dir+"/pos%d" % c["i"]
                c["h2"] = s.cmd("strings2", c["pf"]); c["hs2"] = s.dump("str", np.uint8, c["shape"])
                s.cmd("poison", "nan", 0); c["h3"] = s.cmd("strlen", 1); s.cmd("poison", "nan", 0); c["h4"] = s.cmd("strlen", 3)
                c["mask"] = c["g"].random(c["shape"]) < .3; s.load("str", np.where(c["mask"], 128, 0).astype(np.uint8)); s.cmd("setsd", 4); s.cmd("poison", "nan", 0); c["h5"] = s.cmd("strene")
                s.cmd("unfold"); c["hm"] = s.dump("m", c["dt"], c["shape"]); c["hv"] = s.dump("v", c["dt"], c["shape"]); s.cmd("del")
    fw.run_all([t[0] for t in todo])
    for s, part in todo:
        if s.err: rep.session_error(s.err, "strings", s); s.clean(); continue
        for c in part:
            key = "double" if c["prec"] == 8 else "single"; W, wall = c["W"], c["wall"]; tz, N, _ = c["shape"]
            det = "case %d kind=%s N=%d lz=%d Ng=%d ranks=%d threads=%d folded=%d" % (c["i"], c["kind"], N, c["lz"], c["Ng"], c["ranks"], c["threads"], c["fold"])
            if c["marg"] <= (1e-9 if c["prec"] == 8 else 2e-5): rep.count("ties skipped"); continue
            den = int(sum(np.abs(W[k]).sum() for k in W)); chi = int(sum(W[k].sum() for k in W)); wl = int(wall.sum())
            flag = np.where(wall, 64, 0).astype(np.uint8)
            for nm, u, v, p, q in PL: flag |= np.where(W[nm] > 0, p, np.where(W[nm] < 0, q, 0)).astype(np.uint8)
            for h in ("h", "h2"):
                e = s.at(c[h])
                rep.true(e["den"] == den and e.get("lden", den) == den, key+"/strings", "%d (ranks add up to %s), expected %d; %s" % (e["den"], e.get("lden"), den, det), s)
                rep.true(e["chr"] == chi and e.get("lchr", chi) == chi, key+"/chirality", "%s (ranks add up to %s), expected %d; %s" % (e["chr"], e.get("lchr"), chi, det), s)
                rep.true(e["wall"] == wl and e.get("lwall", wl) == wl, key+"/walls", "%d (ranks add up to %s), expected %d; %s" % (e["wall"], e.get("lwall"), wl, det), s)
            for h in ("hs", "hs2"):
                f = s.get(c[h]); rep.true((f == flag).all(), key+"/flags", "%d of %d site flags differ; %s" % (int((f != flag).sum()), flag.size, det), s)
                for nm, u, v, p, q in PL:	# conservation over closed planes, from the recorded flags alone
                    nrm = AX[({"x", "y", "z"}-{u, v}).pop()]; net = ((f & p) != 0).astype(int)-((f & q) != 0).astype(int)
                    rep.true(not net.sum(axis=tuple(a for a in range(3) if a != nrm)).any(), key+"/net-chirality", "a closed %s plane has net chirality; %s" % (nm, det), s)
            want = sorted((2*i+OFF[nm][0], 2*j+OFF[nm][1], 2*k+OFF[nm][2]) for nm in W for (k, j, i) in np.argwhere(W[nm] != 0))
            got = np.fromfile(c["pf"], dtype=np.uint16) if den else np.zeros(0, np.uint16)
            if den*6 <= c["lz"]*N*N*c["ranks"]*c["prec"]: 	# otherwise the buffer that holds the list is too small
                rep.true(sorted(map(tuple, got.reshape(-1, 3).tolist())) == want, key+"/positions", "position list differs from the pierced plaquettes; "+det, s)
            L, worst, odd, six, four = length(c["m"], W); e3, e4 = s.at(c["h3"]), s.at(c["h4"]); rep.maxof("cubes with three strings", six); rep.count("cubes with two strings", four); rep.count("string plaquettes", den); rep.count("walls", wl)
            rep.true(odd == 0, "model", "odd flux in the model", s)
            ltol = (1e-11 if c["prec"] == 8 else 1e-5)
            for e in (e3, e4):
                rep.true(e["den"] == den, key+"/strlen-den", det, s)
                if worst > 1e-3: rep.close(e["len"], L, ltol, key+"/length", det, s, scale=max(L, 1.))
                elif worst > 0: rep.count("length skipped (ill-conditioned crossing)")
            if den and c["g"] is not None:
                G = gamma(c)
                for nm, w in zip(("deng", "vel", "vel2", "gam"), G): rep.close(e4[nm], w, 1e-12 if c["prec"] == 8 else 2e-5, key+"/"+nm, det, s, scale=max(abs(w), 1e-3))
            e5 = s.at(c["h5"]); w, sc, scV = strene(c, c["mask"]); cond = w.pop("cond")
            for nm in w: rep.close(e5[nm], w[nm], 1e-12*(10+cond) if c["prec"] == 8 else 2e-6*(100+cond), key+"/energy-"+nm, det, s, scale=w[nm] if nm == "nout" else (scV if nm[-1] == "V" else sc))
            rep.true(s.get(c["hm"]).tobytes() == c["m"].tobytes() and s.get(c["hv"]).tobytes() == c["v"].tobytes(), key+"/field-changed", det, s)
            rep.observe((c["kind"], key, c["ranks"], c["threads"], c["fold"]), 4*c["m"].size)
        s.clean()
    return rep.finish(100000)
