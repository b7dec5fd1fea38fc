"""python -m pyvc --prop P01 --tier quick --budget 60 --out FILE

Generates and discharges the obligations of every contract of a property from
the current source of /repo.  Contracts run in parallel forked workers; a
worker hands back the unexplored paths after a time slice."""
import argparse, importlib, json, multiprocessing as mp, os, subprocess, sys
import time
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("--prop", required=True)
  ap.add_argument("--tier", default="quick")
  ap.add_argument("--budget", type=float, default=60)
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("JOBS", "8")))
  ap.add_argument("--only", default="")
  ap.add_argument("--out", default="")
  a = ap.parse_args()
  sys.path.insert(0, HERE)
  sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
  t0 = time.time()
  from pyvc import rt, instr, contract
  instr.install(rt)
  from pyvc.core import CTX
  CTX.reset_path([])
  from registry import PROPS
  mods = PROPS[a.prop].get("contracts", [])
  for m in mods:
    before = len(contract.CONTRACTS)
    importlib.import_module("contracts." + m)
    for k in contract.CONTRACTS[before:]:
      k.module = m
  ks = [k for k in contract.CONTRACTS if a.prop in k.props and
        (k.tier == "quick" or a.tier == "thorough") and a.only in k.name]
  load = time.time() - t0
  deadline = time.time() + a.budget
  res = schedule(ks, a.tier, deadline, a.jobs)
  out = summarize(a, ks, res, load)
  out["wall"] = round(time.time() - t0, 2)
  if a.out:
    with open(a.out, "w") as f:
      json.dump(out, f)
  else:
    show(out)
  sys.stdout.flush()
  os._exit(0)


def worker(conn, ks, tier):
  from pyvc import contract
  while True:
    job = conn.recv()
    if job is None:
      break
    i, mode, prefixes, slc = job
    try:
      r = contract.run_contract(ks[i], mode, tier, work=prefixes, slice_s=slc)
    except BaseException as e:  # pylint: disable=broad-except
      r = dict(obligations=[], unsupported=f"engine: {type(e).__name__}: {e}"[:300],
               paths=0, ended=0, wall=0, solver_time=0, used=[], trusted=[],
               covered=[], left=[], bound=None)
    conn.send((i, mode, r))


def schedule(ks, tier, deadline, jobs):
  ctx = mp.get_context("fork")
  res, queue, outstanding = {}, [], {}

  def start(i, mode):
    if (i, mode) not in res:
      res[(i, mode)] = None
      outstanding[(i, mode)] = 1
      queue.append((i, mode, [[]]))

  for i, k in enumerate(ks):
    for m in k.modes if tier == "thorough" else k.modes[:1]:
      start(i, m)
  ws = []
  for _ in range(min(jobs, max(1, 8))):
    a, b = ctx.Pipe()
    p = ctx.Process(target=worker, args=(b, ks, tier), daemon=True)
    p.start()
    ws.append([a, p, None])

  def finish(key):
    i, mode = key
    r = res[key] or blank()
    r["status"] = verdict(ks[i], r)
    if r["status"] != "proved" and mode == "unbounded" and "bounded" in ks[
        i].modes:
      start(i, "bounded")

  while queue or any(w[2] for w in ws):
    now = time.time()
    if now > deadline:
      break
    for w in ws:
      if w[2] is None and queue:
        job = queue.pop(0)
        slc = 2.0 if ks[job[0]].modes[0] != "unbounded" or job[
            1] == "bounded" else 8.0
        w[2] = (job, now)
        w[0].send(job + (slc,))
    ready = wait([w[0] for w in ws if w[2]], timeout=0.5)
    for w in ws:
      if w[0] in ready:
        try:
          i, mode, r = w[0].recv()
        except EOFError:
          i, mode, _ = w[2][0]
          r = blank()
          r["unsupported"] = "worker died"
          a, b = ctx.Pipe()
          p = ctx.Process(target=worker, args=(b, ks, tier), daemon=True)
          p.start()
          w[0], w[1] = a, p
        w[2] = None
        key = (i, mode)
        left = r.pop("left", [])
        merge(res, key, r)
        outstanding[key] -= 1
        bad = sum(1 for o in res[key]["obligations"] if o["status"] == "failed")
        if mode == "unbounded" and any(o["status"] != "proved"
                                       for o in r["obligations"]):
          left = []
        if left and bad < 4 and not res[key]["unsupported"]:
          n = max(1, min(len(left), jobs if len(queue) < jobs else 1))
          for j in range(n):
            queue.append((i, mode, left[j::n]))
            outstanding[key] += 1
        if outstanding[key] == 0:
          finish(key)
  for key in res:
    if outstanding[key] > 0:
      merge(res, key, blank())
      r = res[key]
      r["unsupported"] = r["unsupported"] or "time budget of the run"
      r["status"] = verdict(ks[key[0]], r)
  for w in ws:
    w[1].kill()
  return res


def blank():
  return dict(obligations=[], unsupported=None, paths=0, ended=0, wall=0,
              solver_time=0, used=[], trusted=[], covered=[], bound=None)


def merge(res, key, r):
  o = res.get(key) or blank()
  o["obligations"] += r["obligations"]
  o["unsupported"] = o["unsupported"] or r["unsupported"]
  for n in ("paths", "ended", "wall", "solver_time"):
    o[n] += r[n]
  o["hints"] = o.get("hints", []) + r.get("hints", [])
  for n in ("used", "trusted", "covered"):
    o[n] = sorted(set(o[n]) | set(r[n]))
  o["bound"] = r["bound"] or o["bound"]
  res[key] = o


def verdict(k, r):
  bad = [o for o in r["obligations"] if o["status"] != "proved"]
  if any(o["status"] == "failed" for o in bad):
    return "failed"
  if r["unsupported"]:
    return "unsupported"
  if bad:
    return "unknown"
  if not r["obligations"] or [x for x in k.covers if x not in r["covered"]]:
    return "vacuous"
  return "proved"


def replay(k, picks):
  """The failing structure on the unmodified code with numpy arrays."""
  e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="",
           TF_CPP_MIN_LOG_LEVEL="3", JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu")
  p = subprocess.run([sys.executable, os.path.join(HERE, "pyvc", "concrete.py"),
                      k.module, k.name, json.dumps(picks)],
                     capture_output=True, text=True, env=e, timeout=120)
  try:
    return json.loads(p.stdout.strip().splitlines()[-1])
  except (ValueError, IndexError):
    return dict(reproduced=False, error=(p.stdout + p.stderr)[-500:])


def concretely(cases):
  """Contracts that the verifier left undecided (or whose failing obligations
  were not reproduced as they stand): the same contracts on concrete arrays, for
  the choices of the undecided paths and for random ones.  (contract, hints) ->
  list of (contract, outcome)"""
  e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="",
           TF_CPP_MIN_LOG_LEVEL="3", JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
  ps = [(k, subprocess.Popen(
      [sys.executable, os.path.join(HERE, "pyvc", "concrete.py"), k.module,
       k.name, json.dumps(h[:20]), "300", "20"], stdout=subprocess.PIPE,
      stderr=subprocess.DEVNULL, text=True, env=e)) for k, h in cases[:10]]
  out = []
  for k, p in ps:
    try:
      text, _ = p.communicate(timeout=90)
      out.append((k, json.loads(text.strip().splitlines()[-1])))
    except (ValueError, IndexError, subprocess.TimeoutExpired):
      p.kill()
      out.append((k, dict(reproduced=False, tried=0, errors=0)))
  return out


def summarize(a, ks, res, load):
  obs, viol, unsup, functions, trusted = [], [], [], set(), set()
  backends, solver, vac, contracts = {}, 0.0, {}, []
  bounded_obs = bounded_ok = 0
  undecided = []
  for (i, mode), r in res.items():
    k = ks[i]
    solver += r["solver_time"]
    trusted |= set(r["trusted"]) | set(k.trusted)
    contracts.append(dict(contract=k.name, mode=mode, status=r["status"],
                          paths=r["paths"], obligations=len(r["obligations"]),
                          wall=round(r["wall"], 2), bound=k.note if mode ==
                          "bounded" and k.note else r["bound"]))
    if r["unsupported"]:
      unsup.append(f"{k.name} [{mode}]: {r['unsupported']}")
    vac[f"{k.name}[{mode}]"] = (
        f"{r['paths']} paths explored, {r['ended']} ended; reached: "
        f"{', '.join(r['covered'])}")
    for o in r["obligations"]:
      key = o["backend"] + (" (bounded structure)" if mode == "bounded" else "")
      if o["status"] == "proved":
        backends[key] = backends.get(key, 0) + 1
    if mode == "unbounded":
      obs += [dict(name=o["name"], status=o["status"],
                   detail=o["detail"][:400]) for o in r["obligations"]]
    else:
      bounded_obs += len(r["obligations"])
      bounded_ok += sum(1 for o in r["obligations"] if o["status"] == "proved")
    if r["status"] == "proved":
      functions |= set(k.targets)
    if mode == "bounded" and r["status"] == "failed" and not k.internal:
      bad = [o for o in r["obligations"] if o["status"] == "failed"]
      if k.replay:
        hit = None
        for o in bad[:4]:
          rp = replay(k, o["picks"] or [])
          if rp.get("reproduced"):
            hit = (o, rp)
            break
          unsup.append(f"{k.name}: {o['name']} not discharged, and not "
                       f"reproduced by numpy ({rp.get('error', '')[-200:]})")
        if not hit:
          undecided.append((k, [o["picks"] or [] for o in bad[:8]]))
        if hit:
          o, rp = hit
          viol.append(dict(name=o["name"], detail=o["detail"][:1500],
                           replayed=True, module=k.module, contract=k.name,
                           picks=o["picks"], numpy=rp))
      else:
        o = bad[0]
        viol.append(dict(name=o["name"], detail=o["detail"][:1500],
                         model=(o["model"] or "")[:2000], replayed=False,
                         contract=k.name))
    if r["status"] in ("unsupported", "unknown") and k.replay and \
        not k.internal and mode == "bounded":
      undecided.append((k, r.get("hints", [])))
    if mode == "unbounded" and r["status"] == "failed" and "bounded" not in \
        k.modes and not k.internal:
      bad = [o for o in r["obligations"] if o["status"] == "failed"]
      viol.append(dict(name=bad[0]["name"], detail=bad[0]["detail"][:1500],
                       model=(bad[0]["model"] or "")[:2000], replayed=False,
                       contract=k.name))
  for k, rp in concretely(undecided) if undecided and not viol else []:
    if rp["reproduced"]:
      viol.append(dict(name=f"{k.name}: fails on concrete arrays",
                       detail=str(rp["runs"])[:1500], replayed=True,
                       module=k.module, contract=k.name, picks=rp["picks"],
                       numpy=rp))
    else:
      unsup.append(f"{k.name}: {rp['tried']} concrete cases instead, none "
                   f"fails, {rp['errors']} not applicable")
  from pyvc import instr
  return dict(
      obligations=obs, violations=viol, functions=sorted(functions),
      trusted=sorted(trusted), backends=backends,
      solver_time=round(solver, 2), unsupported=unsup[:60], vacuity=vac,
      contracts=contracts, bounded_obligations=bounded_obs,
      bounded_discharged=bounded_ok, load=round(load, 2),
      executed=sorted({f for r in res.values() for f in r["used"]}),
      extraction=EXTRACTION + f" {len(instr.SOURCES)} modules extracted.")


EXTRACTION = (
    "Every module of the package is parsed from the current source and executed "
    "with loops, comprehensions, boolean operators, membership/identity tests, "
    "subscripts and set/dict displays routed through the verifier's runtime; "
    "the extraction drops type annotations of parameters and nothing else.")


def show(out):
  for c in out["contracts"]:
    print(c)
  for u in out["unsupported"]:
    print("UNSUPPORTED", u[:600])
  for o in out["obligations"]:
    if o["status"] != "proved":
      print("OPEN", o["name"], o["detail"][:200])
  for v in out["violations"]:
    print("VIOL", json.dumps(v)[:700])
  print("bounded", out["bounded_discharged"], "/", out["bounded_obligations"],
        "backends", out["backends"], "load", out["load"], "wall", out["wall"])


if __name__ == "__main__":
  main()
