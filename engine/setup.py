#!/usr/bin/env python3
"""Nothing to build: check that the tools are there and that the theories type check."""
import subprocess, sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in (["why3", "--version"], ["z3", "--version"], ["cvc5", "--version"], ["clang++-18", "--version"], ["g++", "--version"]):
    subprocess.run(t, stdout=subprocess.DEVNULL, check=True)
d = tempfile.mkdtemp(prefix="vp_setup_")
try:
    c = P.why3_config(d)
    p = subprocess.run(["why3", "-C", c, "prove", "-L", V + "/theories", "--type-only", V + "/theories/cxxprelude.mlw"])
    sys.exit(p.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
