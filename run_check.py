#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  python3 run_check.py P01 [--tier quick|thorough]

1. Deductive part: /verif/pyvc re-reads the current source of the functions
   under contract, generates every proof obligation and discharges them (z3,
   cvc5 fallback).
2. Bounded part: the contracts of the functions outside the verifier's subset
   are evaluated on the running code, on a stated finite family of inputs.

Exit 0: nothing violated.  Exit 1 + `VIOLATION property=.. replay=..`.
"""
import argparse, json, os, subprocess, sys, time, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import PROPS, PYTHON  # noqa: E402


def env():
  e = dict(os.environ)
  e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="",
           TF_CPP_MIN_LOG_LEVEL="3", TF_USE_LEGACY_KERAS="1", JAX_ENABLE_X64="1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
           JAX_PLATFORMS="cpu", VERIF_REPO=REPO)
  return e


def start_workers(prop, tier, seed, budget):
  procs = []
  for module, group, parts in PROPS[prop]["bounded"]:
    for part in range(parts):
      spec = dict(module=module, prop=prop, group=group, tier=tier, part=part,
                  parts=parts, seed=seed, budget=budget,
                  limit=60 if tier == "quick" else 120)
      p = subprocess.Popen([PYTHON, os.path.join(HERE, "bounded", "worker.py"),
                            json.dumps(spec)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env(), cwd=HERE)
      procs.append((spec, p))
  return procs


def start_pyvc(prop, tier, budget):
  if not PROPS[prop].get("contracts"):
    return None
  out = os.path.join(HERE, "evidence", f".pyvc-{prop}.json")
  if os.path.exists(out):
    os.unlink(out)
  p = subprocess.Popen(
      [PYTHON, "-m", "pyvc", "--prop", prop, "--tier", tier, "--budget",
       str(budget), "--out", out], cwd=HERE, stdout=subprocess.PIPE,
      stderr=subprocess.PIPE, env=dict(env(), PYTHONPATH=""))
  return out, p


def collect(p, deadline):
  try:
    o, e = p.communicate(timeout=max(1.0, deadline - time.time()))
  except subprocess.TimeoutExpired:
    p.kill()
    o, e = p.communicate()
  return o.decode(errors="replace"), e.decode(errors="replace")


def known_findings():
  """property -> set of keys of listed (unrepaired) findings"""
  res = {}
  path = os.path.join(HERE, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
      if m:
        res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
  return res


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  a = ap.parse_args()
  prop, tier = a.prop, a.tier
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  for d in ("evidence", "replays"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
  budget = PROPS[prop].get("budget", 15) if tier == "quick" else 480
  hard = t0 + (240 if tier == "quick" else 840)
  vc = start_pyvc(prop, tier, PROPS[prop].get("vc", 120) if tier == "quick" else 400)
  procs = start_workers(prop, tier, seed, budget)
  events, dones, problems = [], [], []
  for spec, p in procs:
    o, e = collect(p, hard)
    done = None
    for line in o.splitlines():
      if line.startswith("@@"):
        try:
          d = json.loads(line[2:])
        except ValueError:
          continue
        if d.get("done"):
          done = d
        else:
          d["module"], d["group"] = spec["module"], spec["group"]
          events.append(d)
    if done is None:
      problems.append(f"worker {spec['module']}/{spec['group']}/{spec['part']} "
                      f"gave no result: {e.strip()[-300:]}")
    else:
      dones.append(done)
  ded = None
  if vc:
    o, e = collect(vc[1], hard)
    try:
      ded = json.load(open(vc[0]))
      os.unlink(vc[0])
    except (OSError, ValueError):
      problems.append(f"deductive part gave no result: {(o + e).strip()[-400:]}")
  return report(prop, tier, seed, t0, events, dones, problems, ded)


def explain(n_ob, n_disch, ded, cases):
  cs = ded.get("contracts", [])
  full = [c["contract"] for c in cs if c["mode"] == "unbounded" and
          c["status"] == "proved"]
  shaped = [f"{c['contract']} ({c['bound']})" for c in cs
            if c["mode"] == "bounded" and c["status"] == "proved"]
  return (
      f"Proved with no bound this run: {n_disch} of {n_ob} obligations, "
      f"contracts {full or 'none'}. Discharged for all tensor entries and all "
      f"dimensions but for enumerated structures only (bounded, not counted as "
      f"proved): {ded.get('bounded_discharged', 0)} of "
      f"{ded.get('bounded_obligations', 0)} obligations, contracts "
      f"{shaped or 'none'}. Bounded runtime contract checks on the running code: "
      f"{cases} cases.")


def report(prop, tier, seed, t0, events, dones, problems, ded):
  known = known_findings().get(prop, {})
  stats = {}
  for d in dones:
    for n, s in d["stats"].items():
      for k, v in s.items():
        stats.setdefault(n, {}).setdefault(k, 0)
        stats[n][k] += v
  viol, kf = [], {}
  for ev in events:
    if ev["status"] == "known" and ev.get("key") in known:
      kf.setdefault(ev["key"], ev)
    elif ev["status"] in ("violation", "known"):
      viol.append(ev)
    elif ev["status"] == "harness":
      problems.append(f"harness error in {ev['scenario']}#{ev['index']}: "
                      f"{ev['message']}")
    elif ev["status"] == "timeout":
      problems.append(f"{ev['scenario']}#{ev['index']}: {ev['message']}")
  broken = (ded or {}).get("violations", [])
  cases = sum(v for s in stats.values() for v in s.values())
  nontriv = sum(v for s in stats.values() for k, v in s.items() if k != "skip")
  ob = (ded or {}).get("obligations", [])
  disch = [o for o in ob if o["status"] == "proved"]
  info = PROPS[prop]
  d_ = (ded or {}).get
  cov = {
      "explanation": explain(len(ob), len(disch), ded or {}, nontriv),
      "obligations": len(ob),
      "discharged": len(disch),
      "bounded_obligations": d_("bounded_obligations", 0),
      "bounded_obligations_discharged": d_("bounded_discharged", 0),
      "contracts": d_("contracts", []),
      "repo_functions_executed_symbolically": d_("executed", []),
      "checker_cmd": f"/opt/venv/bin/python -m pyvc --prop {prop} --tier {tier}",
      "trusted_base": (ded or {}).get("trusted", []),
      "functions_under_contract": (ded or {}).get("functions", []),
      "obligations_by_backend": (ded or {}).get("backends", {}),
      "solver_time_s": (ded or {}).get("solver_time", 0.0),
      "undecided_obligations": [dict(name=o["name"], why=o.get("detail", ""))
                                for o in ob if o["status"] != "proved"],
      "not_within_subset": (ded or {}).get("unsupported", []),
      "extraction": (ded or {}).get("extraction", ""),
      "vacuity_checks": (ded or {}).get("vacuity", {}),
      "evaluations": cases,
      "distinct_nontrivial": nontriv,
      "rule": "bounded stand-in (labelled bounded, never counted as proved): "
              "each scenario draws a small input from (seed, scenario, index); "
              "a case is non-trivial when the input satisfies the contract's "
              "precondition and the postcondition was evaluated on the real "
              "code; distinct by (scenario, index)",
      "bounded_scenarios": stats,
      "cases_cut_by_time": sum(d["cut"] for d in dones),
      "samples": [o["name"] for o in disch[:5]] +
                 [f"{n}: {s}" for n, s in list(stats.items())[:5]],
      "problems": problems[:40],
  }
  evidence = dict(property=prop, tier=tier, seed=seed, level=info["level"],
                  coverage=cov, assumptions=info.get("assumptions", []) +
                  (ded or {}).get("assumptions", []),
                  wall_s=round(time.time() - t0, 2),
                  violations=len(viol) + len(broken))
  with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
    json.dump(evidence, f, indent=1)
  print(f"{prop} [{tier}] obligations {len(disch)}/{len(ob)} discharged in "
        f"{len(cov['functions_under_contract'])} functions; bounded cases "
        f"{nontriv} (+{cases - nontriv} outside precondition); "
        f"{evidence['wall_s']} s")
  for p in problems[:10]:
    print("NOTE " + p.replace("\n", " ")[:300])
  for k, ev in kf.items():
    print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}]")
  if not viol and not broken:
    return 0
  base = os.path.join(HERE, "replays", prop)
  if viol:
    ev = min(viol, key=lambda v: (len(json.dumps(v["log"])), v["index"]))
    path = f"{base}-{ev['scenario'].split('.')[1]}-{ev['index']}.json"
    json.dump(dict(kind="bounded", property=prop, case=ev,
                   failed_obligations=broken, all=[dict(
                       scenario=v["scenario"], index=v["index"],
                       message=v["message"]) for v in viol]),
              open(path, "w"), indent=1)
    print(f"  {ev['scenario']} case {ev['index']}: {ev['message'][:400]}")
    for b in broken[:5]:
      print(f"  failed obligation: {b['name']}: {str(b.get('detail'))[:300]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  b = broken[0]
  path = f"{base}-obligation.json"
  json.dump(dict(kind="obligation", property=prop, failed=broken),
            open(path, "w"), indent=1)
  for b in broken[:5]:
    print(f"  failed obligation: {b['name']}: {str(b.get('detail'))[:400]}")
  if any(b.get("replayed") for b in broken):
    print(f"VIOLATION property={prop} replay={path}")
  else:
    print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
  return 1


if __name__ == "__main__":
  try:
    rc = main()
  except Exception:  # pylint: disable=broad-except
    import traceback
    traceback.print_exc()
    rc = 3
  sys.stdout.flush()
  sys.exit(rc)
