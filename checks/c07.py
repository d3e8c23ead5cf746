"""C07: folding is a lossless relayout; model-based monitor over random fold/unfold/slice sequences, and folded-vs-unfolded differential of every operation."""
import numpy as np
import ref, cases, fw, build
from ref import *

NAME = {SAXION: "saxion", AXION: "axion", AXION_MOD: "axionMod", PAXION: "paxion", WKB: "wkb", NAXION: "naxion"}

def bits(g, shape, dt):
    """arbitrary bit patterns, including NaN payloads, infinities, denormals and negative zeros"""
    n = int(np.prod(shape))*np.dtype(dt).itemsize//4
    b = g.integers(0, 2**32, n, dtype=np.uint32)
    return b.view(dt).reshape(shape)

def same(a, b): return a.tobytes() == b.tobytes()

def sequences(rep, exe, tier):
    ncase = {"quick": 30, "thorough": 400}[tier]
    jobs = {}
    for i in range(ncase):
        g = fw.rng("C07seq", i, tier)
        field = [SAXION, AXION, PAXION, AXION_MOD][i % 4]; prec = int([8, 4][(i//4) % 2]); sh = cases.shift(prec, field)
        ranks = int(g.choice([1, 1, 2, 3]))
        N = int(sh*g.integers(2, 6)); lz = int(g.integers(1, 7)); Ng = int(g.integers(1, min(lz, 5)+1))
        while N*N*Ng < lz*N: Ng += 1
        jobs.setdefault((ranks, int(g.choice([1, 2, 5]))), []).append(dict(g=g, field=field, prec=prec, N=N, lz=lz, Ng=Ng, sh=sh))
    todo = []
    for (ranks, threads), cs in jobs.items():
        s = fw.Session(exe, ranks, threads); todo.append((s, ranks, threads, cs))
        for c in cs:
            g, N, lz = c["g"], c["N"], c["lz"]; dt = cases.dtypes(c["prec"], c["field"]); shape = (lz*ranks, N, N)
            c["m"], c["v"], c["m2"] = bits(g, shape, dt), bits(g, shape, dt), bits(g, shape, dt)
            hasm2 = c["field"] in (SAXION, AXION, AXION_MOD)
            s.cmd("set", "L", 3.); s.cmd("new", c["prec"], N, lz, c["field"], 0, c["Ng"], 0, 1.)
            s.load("m", c["m"]); s.load("v", c["v"])
            if hasm2: s.load("m2s", c["m2"]); s.cmd("setm2folded", 0)
            s.cmd("poison", float(g.choice([np.nan, 7.5])))
            c["obs"] = []; f, f2 = False, False
            for _ in range(14):
                op = str(g.choice(["fold", "unfold", "slice", "sliceyz", "dump"] + (["foldm2", "unfoldm2", "slicem2"] if hasm2 else [])))
                if op in ("slice", "slicem2"): k = int(g.integers(0, lz)); s.cmd(op, k)
                elif op == "sliceyz": k = int(g.integers(0, N)); s.cmd(op, k)
                elif op != "dump": k = 0; s.cmd(op)
                if op == "fold": f = True
                if op == "unfold": f = False
                if op == "foldm2": f2 = True
                if op == "unfoldm2": f2 = False
                if op == "slice": c["obs"].append((op, f, k, s.dump("gf1", dt, (ranks, N, N)), s.dump("gb1", dt, (ranks, N, N))))
                elif op == "sliceyz": c["obs"].append((op, f, k, s.dump("gfyz", dt, (ranks, lz, N)), s.dump("gbyz", dt, (ranks, lz, N))))
                elif op == "slicem2": c["obs"].append((op, f2, k, s.dump("g21", dt, (ranks, N, N)), None))
                else: c["obs"].append(("state", f, f2, s.dump("m", dt, shape), s.dump("v", dt, shape), s.dump("m2s", dt, shape) if hasm2 else None, s.cmd("info")))
            s.cmd("unfold"); s.cmd("unfoldm2")
            c["obs"].append(("state", False, False, s.dump("m", dt, shape), s.dump("v", dt, shape), s.dump("m2s", dt, shape) if hasm2 else None, s.cmd("info")))
            s.cmd("del")
    fw.run_all([t[0] for t in todo])
    for s, ranks, threads, cs in todo:
        if s.err: rep.session_error(s.err, "sequence", s); s.clean(); continue
        for c in cs:
            N, lz = c["N"], c["lz"]
            key = "%s/%s" % (NAME[c["field"]], "double" if c["prec"] == 8 else "single")
            det = "N=%d lz=%d Ng=%d ranks=%d threads=%d" % (N, lz, c["Ng"], ranks, threads)
            m, v, m2 = c["m"], c["v"], c["m2"]; u = [np.uint32, np.uint64, None, None][0]
            def planesorted(a): return np.sort(a.reshape(a.shape[0], -1).view("V%d" % a.itemsize).reshape(a.shape[0], -1).view(np.dtype([("a", np.uint32)]*1) if 0 else "S1").reshape(a.shape[0], -1), axis=1)
            for o in c["obs"]:
                rep.observe((key, o[0], bool(o[1]), N, lz), N*N)
                if o[0] == "state":
                    for nm, fl, h, src in (("m", o[1], o[3], m), ("v", o[1], o[4], v), ("m2", o[2], o[5], m2)):
                        if h is None: continue
                        a = s.get(h)
                        if not fl: rep.true(same(a, src), key+"/unfolded-"+nm, "%s differs from the original after unfolding; %s" % (nm, det), s)
                        else:   # a permutation of the plane's elements
                            A = np.sort(a.reshape(len(a), -1).view(np.uint64 if a.itemsize >= 8 else np.uint32).reshape(len(a), N*N, -1)[:, :, 0], axis=1)
                            B = np.sort(src.reshape(len(a), -1).view(np.uint64 if a.itemsize >= 8 else np.uint32).reshape(len(a), N*N, -1)[:, :, 0], axis=1)
                            rep.true(np.array_equal(A, B), key+"/folded-"+nm, "folded %s is not a permutation of the plane; %s" % (nm, det), s)
                    e = s.at(o[6]); rep.true(bool(e["folded"]) == o[1], key+"/flag", det, s)
                elif o[0] in ("slice", "slicem2"):
                    for h, src in ((o[3], m if o[0] == "slice" else m2), (o[4], v)):
                        if h is None: continue
                        rep.true(same(s.get(h), np.ascontiguousarray(src.reshape(ranks, lz, N, N)[:, o[2]])), key+"/"+o[0], "slice %d folded=%s %s" % (o[2], o[1], det), s)
                elif o[0] == "sliceyz":
                    for h, src in ((o[3], m), (o[4], v)):
                        rep.true(same(s.get(h), np.ascontiguousarray(src[:, :, o[2]].reshape(ranks, lz, N))), key+"/sliceyz", "x=%d folded=%s %s" % (o[2], o[1], det), s)
            rep.count("sequences")
        s.clean()

OPS = {SAXION: ["energy 1", "energy 3", "strings", "strings2", "totheta", "scale", "prop", "write", "project", "reduce", "norm", "cdens", "strlen"],
       AXION: ["energy 1", "energy 3", "mend", "scale", "prop", "topaxion", "write", "reduce", "wkb"],
       AXION_MOD: ["energy 1", "prop", "mend"], PAXION: ["energy 1", "energy 3", "prop", "scale"]}

def operations(rep, exe, tier, only=None):
    """the same operation on the same field, folded or not before the call"""
    todo = []
    for i in range({"quick": 2, "thorough": 12}[tier]):
        for field, ops in OPS.items():
            for prec in (8, 4):
                g = fw.rng("C07op", i, field, prec, tier)
                ranks, threads = ((1, 3), (2, 2))[i % 2]; N, lz = 32, 16//ranks
                shape = (16, N, N); dt = cases.dtypes(prec, field); R = 1.7
                if field == SAXION: m = cases.saxion_field(g, shape, R, "smooth"); v = 0.1*(g.normal(size=shape)+1j*g.normal(size=shape))
                elif field == PAXION: m, v = g.normal(size=shape), g.normal(size=shape)
                else: m = cases.axion_field(g, shape, R, "smooth"); v = 0.3*g.normal(size=shape)
                m, v = m.astype(dt), v.astype(dt)
                for op in ops:
                    if only and op not in only: continue
                    s = fw.Session(exe, ranks, threads); H = []
                    for fold in (0, 1):
                        s.cmd("set", "L", 6.); s.cmd("set", "pot", QCD1 | PQ1); s.cmd("set", "lambda", 30.); s.cmd("set", "indi3", 0.3); s.cmd("set", "nqcd", 4.)
                        s.cmd("new", prec, N, lz, field, 0, 2, 0, R); s.load("m", m); s.load("v", v); s.cmd("poison", "nan", 1)
                        if fold: s.cmd("fold")
                        h = []; ln = []
                        o = op.split()
                        if o[0] == "energy":
                            ln.append(s.cmd(*o))
                            if o[1] == "3":
                                rdt = cases.dtypes(prec, AXION)
                        elif o[0] in ("strings", "mend"): ln.append(s.cmd(op))
                        elif o[0] == "strlen": ln.append(s.cmd("strlen", 1))
                        elif o[0] == "strings2": ln.append(s.cmd("strings2", s.dir+"/pos%d.bin" % fold))
                        elif o[0] == "totheta": s.cmd("totheta", 0.1)
                        elif o[0] == "scale": s.cmd("scale", 1, 1.25); s.cmd("scale", 2, 0.5)
                        elif o[0] == "prop": s.cmd("init", PROP_RKN4 | PROP_BASE, 2); s.cmd("prop", 0.02, 1)
                        elif o[0] == "write": s.cmd("set", "ftype", field); s.cmd("write", 3); s.cmd("del"); s.cmd("read", 3)
                        elif o[0] == "norm": s.cmd("norm", 1)
                        elif o[0] == "project": s.cmd("energy", 3); s.cmd("project", "id"); h.append(s.dump("m0", cases.dtypes(prec, AXION), (ranks, N, N)))
                        elif o[0] == "reduce": s.cmd("reduce", N//2, lz//2, 1, 0.01, 0)
                        elif o[0] == "wkb": s.cmd("wkb", 1.9)
                        elif o[0] in ("topaxion"): s.cmd(op)
                        elif o[0] == "cdens": pass
                        ln.append(s.cmd("info")); s.cmd("unfold")
                        fin = {"totheta": AXION, "tocmplx": SAXION, "tonaxion": NAXION, "topaxion": PAXION}.get(o[0], field); fdt = cases.dtypes(prec, fin)
                        fsh = (8, N//2, N//2) if o[0] == "reduce" else shape
                        if o[0] != "project": h.append(s.dump("m", fdt, fsh)); h.append(s.dump("v", fdt, fsh)) if o[0] != "reduce" else None
                        H.append((h, ln)); s.cmd("del")
                    todo.append((s, field, op, prec, ranks, dt, m, H))
    fw.run_all([t[0] for t in todo])
    for s, field, op, prec, ranks, dt, m, H in todo:
                    if s.err: rep.session_error(s.err, "op-%s-%s" % (NAME[field], op), s); s.clean(); continue
                    key = "op/%s/%s" % (NAME[field], op.replace(" ", "-")); det = "%s ranks=%d" % ("double" if prec == 8 else "single", ranks)
                    eps = float(np.finfo(dt).eps)
                    for a, b in zip(H[0][0], H[1][0]):
                        x, y = s.get(a), s.get(b)
                        if a == H[0][0][0] and op == "project": x, y = x[0], y[0]
                        rep.close(x, y, 100*eps, key, det, s)
                    for a, b in zip(H[0][1], H[1][1]):
                        x, y = s.at(a), s.at(b)
                        for k in x:
                            if k in ("ln", "ev", "folded", "m2folded", "m2", "sd"): continue
                            xv, yv = np.asarray(x[k], float), np.asarray(y[k], float)
                            rep.true(np.allclose(xv, yv, rtol=1e-9 if prec == 8 else 1e-4, atol=0, equal_nan=True), key+"/"+k, "%s: unfolded %s folded %s" % (det, x[k], y[k]), s)
                    rep.observe((key, prec, ranks), int(m.size)); rep.count("operations_compared"); s.clean()

def main(tier):
    rep = fw.Report("C07", tier, "random sequences of fold/unfold/slice calls on arrays of random bit patterns checked against a shadow model after every call; every library operation run on the same field folded and unfolded. Non-trivial = distinct (field, precision, operation, fold state, lattice)")
    exe = build.build()["drv"]
    sequences(rep, exe, tier); operations(rep, exe, tier)
    return rep.finish(10000)
