"""Runs one of the real main programs in a scratch directory of its own."""
import os, shutil, re
import fw, build

import itertools
_pid = itertools.count(1)
def main_exe(name, profile=None):
    src = {"vaxion3d": "vaxions.cpp", "gravi3": "gravi3.cpp", "redu": "reduce.cpp", "WKVaxion": "WKVaxion.cpp", "paxion3d": "Paxions.cpp", "gadgetme": "gadgetme.cpp"}[name]
    return build.build(name, profile, mains=[(name, build.REPO+"/test/"+src)])[name]

class Prog:
    def __init__(self, exe, args, ranks=1, threads=1, N=16, lz=None, measfile=None, env=None, timeout=120, out_from=None):
        self.dir = os.path.join(fw.scratch(), "p%05d" % next(_pid)); self.out = os.path.join(self.dir, "out/m"); os.makedirs(self.out); os.makedirs(self.dir+"/wis")
        self.exe, self.ranks, self.threads, self.N, self.lz, self.timeout = exe, ranks, threads, N, lz or N//ranks, timeout
        self.args = [str(a) for a in args]; self.env = dict(env or {})
        if measfile is not None: open(self.dir+"/measfile.dat", "w").write(measfile)
        if out_from is not None:
            for f in os.listdir(out_from.dir+"/out"):
                p = out_from.dir+"/out/"+f
                if os.path.isfile(p): shutil.copy(p, self.dir+"/out/"+f)
            for f in os.listdir(out_from.out): shutil.copy(out_from.out+"/"+f, self.out+"/"+f)
    def run(self):
        base = ["--size", str(self.N), "--depth", str(self.lz), "--zgrid", str(self.ranks), "--device", "cpu", "--verbose", "0"]
        def once(timeout): rc, self.log = fw.run_mpi([self.exe]+base+self.args, self.ranks, self.threads, self.dir, self.env, timeout); return rc
        self.log = ""; self.rc = fw.retrying(once, self.timeout)
        return self
    def files(self, pre="axion.m."):
        return sorted(int(m.group(1)) for m in (re.fullmatch(re.escape(pre)+r"(\d+)", f) for f in os.listdir(self.out)) if m)
    def sample(self):
        p = self.dir+"/out/sample.txt"
        return [[float(x) for x in l.split()] for l in open(p)] if os.path.exists(p) else []
    def clean(self): shutil.rmtree(self.dir, ignore_errors=True)

def run_all(ps, workers=4):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(Prog.run, ps))
