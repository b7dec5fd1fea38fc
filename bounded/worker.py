"""Runs a slice of the cases of one property; prints one JSON line per event."""
import json, os, sys, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main():
  spec = json.loads(sys.argv[1])
  # the code under test may print: keep it away from the result channel
  chan = os.fdopen(os.dup(1), "w")
  os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
  from bounded import core
  importlib.import_module("bounded." + spec["module"])
  t0 = time.time()
  names = [
      n for n, s in core.SCENARIOS.items()
      if s.prop == spec["prop"] and s.group == spec["group"]
  ]
  # the quick cases always run (up to 4x the budget); the remaining cases of the
  # thorough list follow, round robin over the scenarios, until the budget ends
  def rounds(lo, hi):
    order, k = [], 0
    tasks = [[(n, i) for i in range(lo(core.SCENARIOS[n]), hi(core.SCENARIOS[n]))]
             for n in names]
    while any(k < len(t) for t in tasks):
      for t in tasks:
        if k < len(t):
          order.append(t[k])
      k += 1
    return order

  first = rounds(lambda s: 0, lambda s: s.quick)
  rest = rounds(lambda s: s.quick, lambda s: s.thorough)
  nfirst = len(first)
  mine = list(enumerate(first + rest))[spec["part"]::spec["parts"]]
  stats = {}
  cut = 0
  nviol = 0
  for pos, (n, i) in mine:
    if time.time() - t0 > spec["budget"] * (4 if pos < nfirst else 1):
      cut += 1
      continue
    r = core.run_case(n, i, spec["seed"], limit=spec.get("limit", 60))
    st = stats.setdefault(n, {})
    st[r["status"]] = st.get(r["status"], 0) + 1
    if r["status"] not in ("ok", "skip"):
      print("@@" + json.dumps(r), file=chan, flush=True)
    if r["status"] == "violation":
      nviol += 1
      if nviol >= spec.get("maxviol", 5):
        break
  print("@@" + json.dumps(dict(done=True, stats=stats, cut=cut,
                              wall=time.time() - t0)), file=chan, flush=True)
  sys.stdout.flush()
  os._exit(0)


if __name__ == "__main__":
  main()
