#!/usr/bin/env python3
"""mkseed.py <id> <property> : packs a planted bug. Takes the working-tree diff of /repo (or a given diff) and demo.py beside it; adds the shared demo support files."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", sys.argv[1])
for f in ("lib/fw.py", "lib/ref.py", "lib/cases.py", "harness/drv.cpp", "harness/mpishim.h"):
    shutil.copy(os.path.join(V, f), d)
open(d+"/build.py", "w").write('''"""stand-in for the check framework's build module: the demo links against the library that build.sh made"""
import os, subprocess
REPO = os.getcwd(); VERIF = os.environ["DEMO_TMP"]
def build(**k):
    exe = VERIF+"/drv"
    here = os.path.dirname(os.path.abspath(__file__))
    if not os.path.exists(exe):
        sh = lambda c: subprocess.run(c, stdout=subprocess.PIPE, text=True, check=True).stdout.split()
        subprocess.run(["g++", "-O1", "-fopenmp", "-mavx2", "-mfma", "-DUSE_PROP_RKN4", "-mcmodel=medium", "-std=gnu++14", "-w", "-I"+REPO+"/include", "-I"+here, "-isystem", "/usr/include/hdf5/openmpi"]
            + sh(["mpicxx", "--showme:compile"]) + [here+"/drv.cpp", REPO+"/_build/lib/libAxions.a", "-o", exe, "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-lfftw3_mpi", "-lfftw3f_mpi",
            "-lfftw3_omp", "-lfftw3f_omp", "-lfftw3", "-lfftw3f", "-lgsl", "-lgslcblas", "-lm", "-ldl", "-lpthread"] + sh(["mpicxx", "--showme:link"]), check=True)
    return {"drv": exe}
''')
open(d+"/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken. Run with cwd = the repository, after its build.
H=$(cd "$(dirname "$0")" && pwd)
export DEMO_TMP=$(mktemp -d) VERIF_EVIDENCE=/nonexistent
trap 'rm -rf "$DEMO_TMP"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$H" python3-vt "$H/demo.py"
''')
os.chmod(d+"/demo.sh", 0o755)
