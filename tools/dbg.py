"""dbg.py MODULE CONTRACT [tier]: run one contract serially, print what is not proved."""
import sys, os, importlib
sys.path[0:1] = [os.environ.get("VERIF_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from pyvc import rt, instr, contract
instr.install(rt)
from pyvc.core import CTX
CTX.reset_path([])
importlib.import_module("contracts." + sys.argv[1])
for k in contract.CONTRACTS:
  if k.name == sys.argv[2]:
    mode = k.modes[0] if len(k.modes) == 1 else os.environ.get("MODE", "bounded")
    r = contract.run_contract(k, mode, *(sys.argv[3:4]))
    print(k.name, mode, "paths", r["paths"], "unsupported", r["unsupported"],
          "obligations", len(r["obligations"]), "wall", r["wall"])
    for o in [o for o in r["obligations"] if o["status"] != "proved"][:6]:
      print(o["picks"], o["name"], o["status"], str(o["detail"])[:600], str(o["model"])[:300])
    print([n for n in CTX.notes][-3:])
