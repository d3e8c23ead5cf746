"""C13: histograms against a recount of every site."""
import numpy as np
import cases, fw, build
from ref import *

def fl(nm, x):
    with np.errstate(divide="ignore"):
        return {"id": lambda a: a, "abs": np.abs, "log": lambda a: np.log10(np.abs(a)), "sq": lambda a: a*a}[nm](x)

def case(i, tier):
    g = fw.rng("C13", i, tier); prec = int([8, 4][i % 2])
    ranks, threads = [(1, 1), (2, 3), (3, 2), (4, 5), (1, 8)][int(g.integers(0, 5))]
    N = int(g.choice([4, 8, 12, 16, 24])); lz = int(g.integers(2, 8)); shape = (lz*ranks, N, N)
    region = str(g.choice(["m", "v", "m2r", "m2s", "m2pad", "cplx"])); flt = str(g.choice(["id", "abs", "log", "sq"])); nb = int(g.choice([7, 100, 3000]))
    dt = cases.dtypes(prec, SAXION if region == "cplx" else AXION)
    k = str(g.choice(["normal", "uniform", "peaked", "levels", "wide", "offset"]))
    x = {"normal": lambda: g.normal(size=shape), "uniform": lambda: g.uniform(-3, 3, shape), "peaked": lambda: g.normal(size=shape)**5,
         "levels": lambda: g.integers(-6, 7, shape)*.25, "wide": lambda: np.exp(g.uniform(-12, 9, shape)), "offset": lambda: 1e3+g.uniform(0, 1, shape)}[k]()
    ext = int(g.integers(0, 4))	# place the extremes where a decomposition would miss them
    fx = x.reshape(-1)
    if ext == 1: fx[0], fx[-1] = 3*np.abs(fx).max()+1, -3*np.abs(fx).max()-1
    if ext == 2: p = g.integers(0, fx.size, 2); fx[p[0]] = 5*np.abs(fx).max()+1
    if ext == 3 and flt == "log": fx[g.integers(0, fx.size, 3)] = 0.; fx[0] = 0. if g.random() < .5 else fx[0]
    if flt == "log" and k == "levels": fx[fx == 0] = 2.
    if region == "cplx": x = x*np.exp(1j*g.uniform(-np.pi, np.pi, shape))
    return dict(i=i, g=g, prec=prec, ranks=ranks, threads=threads, N=N, lz=lz, shape=shape, region=region, flt=flt, nb=nb, x=x.astype(dt), k=k, dt=dt)

def main(tier):
    rep = fw.Report("C13", tier, "one evaluation = one site recounted into the bins; distinct = (region, filter, bins, distribution, precision, ranks, threads)")
    exe = build.build()["drv"]; n = {"quick": 150, "thorough": 3000}[tier]
    cs = [case(i, tier) for i in range(n)]; todo = []; by = {}
    for c in cs: by.setdefault((c["ranks"], c["threads"]), []).append(c)
    for (ranks, threads), l in by.items():
        for part in [l[k:k+20] for k in range(0, len(l), 20)]:
            s = fw.Session(exe, ranks, threads); todo.append((s, part))
            for c in part:
                Ng = max(1, -(-c["lz"]//c["N"])); c["Ng"] = Ng
                s.cmd("set", "L", 6.); s.cmd("new", c["prec"], c["N"], c["lz"], SAXION if c["region"] == "cplx" else AXION, 0, Ng, 0, 1.)
                s.cmd("poison", "1e5", 1); r = "m" if c["region"] == "cplx" else c["region"]
                if r == "m2pad":
                    p = np.full(c["shape"][:2]+(c["N"]+2,), 7e7, c["dt"]); p[:, :, :c["N"]] = c["x"]; s.load(r, p)
                    c["h"] = s.cmd("bin", r, c["flt"], c["nb"], c["N"]+2, c["N"])
                else:
                    s.load(r, c["x"]); c["h"] = s.cmd("bin", r, c["flt"], c["nb"])
                s.cmd("del")
    fw.run_all([t[0] for t in todo])
    for s, part in todo:
        if s.err: rep.session_error(s.err, "bin", s); s.clean(); continue
        for c in part:
            e = s.at(c["h"]); key = "%s/%s/%s" % (c["region"], c["flt"], "double" if c["prec"] == 8 else "single"); nb = c["nb"]
            det = "case %d %s bins=%d N=%d lz=%d ranks=%d threads=%d" % (c["i"], c["k"], nb, c["N"], c["lz"], c["ranks"], c["threads"])
            x = c["x"].astype(np.complex128 if c["region"] == "cplx" else np.float64).ravel()
            if c["region"] == "cplx":
                x = np.abs(c["x"].ravel()).astype(np.float64)*(np.where(x.real < 0, -1., 1.) if c["flt"] in ("id", "sq") else 1.)
            y = fl(c["flt"], x); ok = np.isfinite(y); f = y[ok]; mn, mx = f.min(), f.max()
            if mx-mn < 1e-9*max(1, abs(mx)): continue
            eps = 1e-13 if c["prec"] == 8 or c["region"] != "cplx" else 3e-7
            rep.close(e["min"], mn, eps, key+"/min", det, s, scale=max(abs(mn), 1e-300)); rep.close(e["max"], mx, eps, key+"/max", det, s, scale=max(abs(mx), 1e-300))
            st = (e["max"]-e["min"])/(nb-1); b = np.asarray(e["bins"])*st*y.size; t = (f-(e["min"]-st/2))/st
            w = max(8*eps*max(abs(mn), abs(mx))/st, 1e-7); lo, hi = np.floor(t-w), np.floor(t+w)
            sure = np.bincount(np.clip(lo[lo == hi], 0, nb-1).astype(int), minlength=nb).astype(float); amb = np.zeros(nb)
            for q in (lo, hi): np.add.at(amb, np.clip(q[lo != hi], 0, nb-1).astype(int), 1)
            if w > .3: rep.count("bins narrower than rounding"); continue
            rep.true((b > sure-.01).all() and (b < sure+amb+.01).all(), key+"/counts", "a bin holds %g sites, expected %g to %g; %s" % (
                (lambda j: (b[j], sure[j], (sure+amb)[j]))(int(np.argmax(np.maximum(sure-b, b-sure-amb))))+(det,)), s)
            rep.close(b.sum(), float(ok.sum()), 1e-9, key+"/total", det, s)
            rep.observe((key, nb, c["k"], c["ranks"], c["threads"]), y.size); rep.count("ambiguous sites", int((lo != hi).sum())); rep.count("infinite values", int((~ok).sum()))
        s.clean()
    return rep.finish(50000)
