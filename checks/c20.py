"""C20: grid reduction (library call and on reading) and expansion on reading, against an FFT filter and trilinear interpolation."""
import os
import numpy as np
import cases, fw, build
from ref import *

def filt(f, fun):
    kz, ky, kx = [np.rint(np.fft.fftfreq(n)*n).reshape(s) for n, s in zip(f.shape, ((-1, 1, 1), (1, -1, 1), (1, 1, -1)))]
    r = np.fft.ifftn(np.fft.fftn(f)*fun(kx, ky, kz)); return r if np.iscomplexobj(f) else r.real

def lin(f, pos, ax, hi):
    """linear interpolation along one axis; hi(i) is the partner of site i"""
    a = np.floor(pos+1e-9).astype(int); w = pos-a; w[np.abs(w) < 1e-9] = 0; sh = [1, 1, 1]; sh[ax] = -1
    return np.take(f, a, ax)*(1-w).reshape(sh)+np.take(f, hi(a), ax)*w.reshape(sh)

def reduced(f, ranks, nx, nz, fun):
    f = filt(f, fun); tz, N, _ = f.shape; lz = tz//ranks
    f = lin(lin(f, np.arange(nx)*(N/nx), 2, lambda a: np.minimum(a+1, N-1)), np.arange(nx)*(N/nx), 1, lambda a: np.minimum(a+1, N-1))
    return np.concatenate([lin(f[r*lz:(r+1)*lz], np.arange(nz)*(lz/nz), 0, lambda a: np.minimum(a+1, lz-1)) for r in range(ranks)])

def expanded(f, N, tz):
    n, nz = f.shape[1], f.shape[0]
    for ax, a, b in ((2, n, N), (1, n, N), (0, nz, tz)): f = lin(f, np.arange(b)*(a/b), ax, lambda q, a=a: (q+1) % a)
    return f

def field(g, shape, dt, kind):
    r = lambda: {"rough": lambda: g.normal(size=shape), "smooth": lambda: cases.smooth(g, shape, 2)+.1, "spike": lambda: np.eye(1, int(np.prod(shape)), int(g.integers(0, np.prod(shape)))).reshape(shape),
                 "slabs": lambda: np.ones(shape)*g.normal(size=shape[0])[:, None, None]}[kind]()
    f = r()
    return (f+1j*r() if dt in (np.complex64, np.complex128) else f).astype(dt)

FN = {SAXION: "complex", AXION: "axion", AXION_MOD: "axion", PAXION: "paxion"}

def case(i, tier):
    g = fw.rng("C20", i, tier); prec = int([8, 4][i % 2]); mode = ["lib", "m2", "read", "expand", "lib", "expand"][(i//2) % 6]
    ranks, threads = [(1, 1), (2, 3), (1, 4), (4, 2), (2, 1)][int(g.integers(0, 5))]
    fieldt = int(g.choice([SAXION, AXION, AXION, PAXION] if mode == "lib" else [SAXION, AXION])); shf = cases.shift(prec, fieldt)
    dt = cases.dtypes(prec, fieldt); Ng = int(g.choice([1, 1, 2]))
    mult = int(np.lcm(shf, ranks)); N = mult*int(g.integers(1, max(2, 24//mult)+1)); N = max(N, 8); lz = int(g.integers(2, 9))
    while N*N*Ng < lz*N: Ng += 1
    lz = max(lz, Ng)
    c = dict(i=i, g=g, prec=prec, mode=mode, ranks=ranks, threads=threads, field=fieldt, dt=dt, Ng=Ng, N=N, lz=lz, kind=str(g.choice(["rough", "smooth", "spike", "slabs"])))
    if mode in ("lib", "m2"):
        c["ip"] = 1 if mode == "m2" else int(g.integers(0, 2)); c["fi"] = 4 if mode == "m2" else 3
        lz = c["lz"] = max(lz, 2); c["shape"] = (lz*ranks, N, N)
        c["nx"] = int(g.choice([N-1, N//2, max(2, N-2), max(2, int(g.integers(2, N)))])) if c["ip"] else shf*int(g.integers(1, N//shf+1))
        c["nz"] = int(g.integers(1, lz)) if c["ip"] else int(g.integers(min(Ng, lz), lz+1)); c["cut"] = float(g.choice([0., g.uniform(0, .1), g.uniform(.1, 2)]))
        if not c["ip"] and c["nz"]*c["nx"] > c["nx"]**2*Ng: c["nz"] = min(lz, c["nx"]*Ng)
        if mode == "m2": c["pre"] = int(g.integers(0, 2)); c["dt"] = np.float64 if prec == 8 else np.float32
    else:	# file lattice (n, m) -> run lattice (N, lz)
        a, b = N, lz
        if mode == "read":
            lz = max(lz, 3); b = lz; big = mult*(N//mult+int(g.integers(1, 4))); bz = lz+int(g.integers(1, 6)); c["file"] = (big, bz); c["run"] = (N, lz)
        else:
            big = mult*(N//mult+int(g.integers(1, 4))); r = g.random()
            if r < .4: big = 2*N; bz = 2*lz
            elif r < .7: bz = lz+int(g.integers(1, 6))
            else: bz = max(lz+1, int(round(lz*big/N)))
            c["file"] = (N, lz); c["run"] = (big, bz)
        for k in ("file", "run"):
            while c[k][0]*Ng < c[k][1]: Ng += 1
        Ng = min(Ng, c["file"][1], c["run"][1]); c["Ng"] = Ng
        c["shape"] = (c["file"][1]*ranks, c["file"][0], c["file"][0])
    c["m"] = field(g, c["shape"], c["dt"], c["kind"]); c["v"] = field(g, c["shape"], c["dt"], c["kind"])
    return c

def main(tier):
    rep = fw.Report("C20", tier, "one evaluation = one site of a reduced or expanded field compared; distinct = (route, field, precision, lattices, ranks, threads, filter)")
    exe = build.build()["drv"]; n = {"quick": 96, "thorough": 2400}[tier]; todo = []; second = []
    for i in range(n):
        c = case(i, tier); ft = {SAXION: "saxion", AXION: "axion", PAXION: "paxion"}[c["field"]]
        if c["mode"] in ("lib", "m2"):
            s = fw.Session(exe, c["ranks"], c["threads"]); s.cmd("set", "L", 6.)
            s.cmd("new", c["prec"], c["N"], c["lz"], c["field"], 0, c["Ng"], 0, 1.5); s.cmd("poison", "1e3", 1)
            if c["mode"] == "lib":
                s.load("m", c["m"])
                s.load("v", c["v"])
                if c["field"] != PAXION and c["i"] % 3 == 0: s.cmd("fold")
                s.cmd("reduce", c["nx"], c["nz"], 3, c["cut"], c["ip"]); sh = (c["nz"]*c["ranks"], c["nx"], c["nx"])
                c["hm"], c["hv"] = s.dump("m", c["dt"], sh), s.dump("v", c["dt"], sh)
            else:
                s.load("m2r", c["m"]); s.cmd("setm2", 0)
                if c["pre"]: s.cmd("spec", "prun", -1)
                s.cmd("reduce", c["nx"], c["nz"], 4, c["cut"], 1); c["hm"] = s.dump("m2red%d,%d" % (c["nx"], c["nz"]), c["dt"], (c["nz"]*c["ranks"], c["nx"], c["nx"]))
            todo.append((s, c)); continue
        pr = "double" if c["prec"] == 8 else "single"; N, lz = c["file"]
        a = fw.Session(exe, c["ranks"], c["threads"], N=N, Lz=lz, prec=pr, args=["--ftype", ft, "--lap", str(c["Ng"])]); a.cmd("set", "L", 6.); a.cmd("new", c["prec"], N, lz, c["field"], 0, c["Ng"], 0, 1.5)
        a.load("m", c["m"]); a.load("v", c["v"])
        if c["i"] % 3 == 0: a.cmd("fold")
        a.cmd("write", 7); a.cmd("del"); todo.append((a, c))
        N, lz = c["run"]; b = fw.Session(exe, c["ranks"], c["threads"], N=N, Lz=lz, prec=pr, args=["--ftype", ft, "--lap", str(c["Ng"])], env={"AXIONS_OUTPUT": os.path.join(a.dir, "out", "m")})
        b.cmd("set", "L", 6.); b.cmd("read", 7); sh = (lz*c["ranks"], N, N); b.cmd("info")
        c["hm"], c["hv"] = b.dump("m", c["dt"], sh), b.dump("v", c["dt"], sh); second.append((b, c, a))
    fw.run_all([t[0] for t in todo]); fw.run_all([t[0] for t in second])
    wr = {id(c): s for s, c in todo if c["mode"] in ("read", "expand")}
    for s, c in [(s, c) for s, c in todo if c["mode"] in ("lib", "m2")]+[(b, c) for b, c, a in second]:
        key = "%s/%s/%s" % ({"lib": "reduce", "m2": "reduce density", "read": "read smaller", "expand": "read larger"}[c["mode"]], FN[c["field"]], "double" if c["prec"] == 8 else "single")
        det = "case %d %s lattice=%s ranks=%d threads=%d Ng=%d %s" % (c["i"], c["kind"], c.get("file", (c["N"], c["lz"])), c["ranks"], c["threads"], c["Ng"], {k: c[k] for k in ("nx", "nz", "cut", "ip", "run", "pre") if k in c})
        if c["mode"] in ("read", "expand") and wr[id(c)].err: rep.session_error(wr[id(c)].err, key+"/write", wr[id(c)]); wr[id(c)].clean(); s.clean(); continue
        if s.err: rep.count("failed: "+det); rep.session_error(s.err, key, s); s.clean(); continue
        r = c["ranks"]
        if c["mode"] in ("lib", "m2"): op = lambda f: reduced(f, r, c["nx"], c["nz"], lambda x, y, z: np.exp(-c["cut"]*(x*x+y*y+z*z)))
        elif c["mode"] == "read": op = lambda f: reduced(f, r, c["run"][0], c["run"][1], lambda x, y, z: np.exp(-2*np.pi**2*((x*x+y*y)/c["run"][0]**2+z*z/float(c["run"][1]*r)**2)))
        else: op = lambda f: expanded(f, c["run"][0], c["run"][1]*r)
        for nm in ("m", "v"):
            if "h"+nm not in c: continue
            f = c[nm].astype(np.complex128 if np.iscomplexobj(c[nm]) else np.float64); w = op(f); got = s.get(c["h"+nm])
            rep.close(got, w, 3e-13 if c["prec"] == 8 else 5e-6, key+"/"+nm, det, s, scale=np.max(np.abs(f)))
            rep.observe((key, c["shape"], got.shape, r, c["threads"], c.get("cut", 0) > 0), got.size)
        s.clean()
        if c["mode"] in ("read", "expand"): wr[id(c)].clean()
    return rep.finish(20000)
