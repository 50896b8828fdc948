"""Prepares the framework offline: the specifications parse, the tools are there."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import *

os.makedirs(WORK, exist_ok=True)
bad = 0
for f in sorted(glob.glob(os.path.join(SPECS, "*.tla"))):
    r = subprocess.run(["java", "-cp", tlc_classpath(), "tla2sany.SANY", f], cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "*** Errors" in r.stdout:
        print(f, r.stdout[-800:])
        bad = 1
for t in ("cmake", "ninja", "g++", "java"):
    if not shutil.which(t):
        print("missing tool", t)
        bad = 1
print("setup", "failed" if bad else "ok")
sys.exit(bad)
