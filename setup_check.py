#!/usr/bin/env python3
"""Nothing has to be built: verifies that the tools the checks need exist."""
import os, shutil, subprocess, sys
ok = True
for t in ("cvc5",):
  if not shutil.which(t):
    print("missing", t)
    ok = False
r = subprocess.run(
    ["/opt/venv/bin/python", "-c",
     "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
     "import z3, numpy, jax, tensorflow, h5py; print(z3.get_version_string())"],
    env=dict(os.environ, TF_CPP_MIN_LOG_LEVEL="3"))
sys.exit(0 if ok and r.returncode == 0 else 1)
