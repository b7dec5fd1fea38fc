#!/usr/bin/env python3
"""python3 replay.py FILE: re-run the case of a replay file on the real code."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
d = json.load(open(sys.argv[1]))
from run_check import env
from registry import PYTHON
if d["kind"] != "bounded":
  print(json.dumps(d, indent=1))
  rc = 0
  for f in d["failed"]:
    if f.get("picks") is not None and f.get("module"):
      rc |= subprocess.call([PYTHON, os.path.join(HERE, "pyvc", "concrete.py"),
                             f["module"], f["contract"],
                             json.dumps(f["picks"])],
                            env=env(), cwd=HERE)
  sys.exit(rc)
c = d["case"]
code = ("import sys,json;sys.path.insert(0,%r);import importlib;"
        "from bounded import core;importlib.import_module('bounded.%s');"
        "r=core.run_case(%r,%d,%d,300);print(r.pop('trace',''));"
        "print(json.dumps(r,indent=1));sys.exit(r['status']=='violation')" %
        (HERE, c["module"], c["scenario"], c["index"], c["seed"]))
sys.exit(subprocess.call([PYTHON, "-c", code], env=env(), cwd=HERE))
