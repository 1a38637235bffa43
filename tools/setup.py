#!/usr/bin/env python3
"""setup_cmd: nothing is installed; makes sure the tools the checks need are there and their Python is well-formed."""
import glob, os, py_compile, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("clang", "clang++", "gcc", "g++", "python3") if not shutil.which(t)]
for f in glob.glob(V + "/checks/*.py") + glob.glob(V + "/vlib/*.py"):
    compile(open(f).read(), f, "exec")
os.makedirs(V + "/evidence", exist_ok=True)
if missing:
    sys.exit("missing tools: %s" % missing)
