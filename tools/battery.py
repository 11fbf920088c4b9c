#!/usr/bin/env python3
"""battery.py [names]: apply each behaviour-preserving edit of tools/refac/list*.py to a copy of /repo and run all rules on it.
environment: CH (property ids), J (parallel jobs)"""
import sys, subprocess, os, importlib, glob, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "refac"))
from concurrent.futures import ThreadPoolExecutor
R = {}
for p in sorted(glob.glob(HERE + "/refac/list*.py")):
    R.update(importlib.import_module(os.path.basename(p)[:-3]).R)
base = tempfile.mkdtemp(prefix="bat")


def one(nm):
    d = base + "/" + nm
    subprocess.run(["git", "clone", "-q", "/repo", d])
    try:
        for f, a, b in R[nm]:
            s = open(d + "/" + f).read()
            if a not in s:
                return nm, "NOAPPLY %s: %r" % (f, a[:60])
            open(d + "/" + f, "w").write(s.replace(a, b, 1))
        for f in {x for x, _, _ in R[nm] if x.endswith(".cpp")}:
            r = subprocess.run(["g++", "-std=c++11", "-w", "-fsyntax-only", "-Ilibman", "-Ilibkcommon", "-I.", "-I/usr/include/x86_64-linux-gnu/mpich", "-DUSE_NUMA", "-fopenmp", f], cwd=d, capture_output=True, text=True)
            if r.returncode and "mpi.h" not in r.stderr:
                return nm, "NOCOMPILE " + r.stderr[:300]
        r = subprocess.run(["python3", HERE + "/allrules.py"] + os.environ.get("CH", "").split(), env=dict(os.environ, KNOR_REPO=d), capture_output=True, text=True)
        return nm, "\n   ".join((r.stdout + r.stderr[-500:]).splitlines()[:12]) or "quiet"
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for nm, o in ex.map(one, sys.argv[1:] or sorted(R)):
        print(nm, o, flush=True)
shutil.rmtree(base)
