"""Reads HDF5 files through our own dumper (harness/h5x.cpp)."""
import os, json, subprocess, tempfile, shutil
import numpy as np
import build

class File:
    def __init__(s, path, data=True):
        s.path = path; s.dir = tempfile.mkdtemp(dir=os.path.dirname(os.path.abspath(path)), prefix="h5x-") if data else None
        r = subprocess.run([build.tool("h5x"), path] + ([s.dir] if data else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: s.close(); raise IOError("%s: %s (%d)" % (path, r.stderr.strip(), r.returncode))
        j = json.loads(r.stdout); s.attrs, s.dsets = j["attrs"], j["dsets"]
        s.arr = {}
        if data:
            for k, d in s.dsets.items():
                if d["dtype"][0] != "x": s.arr[k] = np.fromfile(os.path.join(s.dir, d["file"]), dtype=d["dtype"]).reshape(d["dims"])
        s.close()
    def close(s):
        if s.dir: shutil.rmtree(s.dir, ignore_errors=True)
    def __getitem__(s, k): return s.attrs[k] if "@" in k else s.arr[k]
    def get(s, k, d=None): return s.attrs.get(k, d) if "@" in k else s.arr.get(k, d)
